From 1c5b0950e923bc48ad8f75590a47fb9e9b8d7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 01/30] fix: keep M when loading, substituting or merging
 Fourier containers

load_fform, fform_to_fdat and merge_containers rejected anything but M=16.
---
 shgpy/core/data_handler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 8327222..e604551 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1123,7 +1123,7 @@ def fform_to_fdat(fform, subs_dict):
 
     """
     subs_array = [(k,subs_dict[k]) for k in fform.get_free_symbols()]
-    new_fform = fFormContainer(fform.get_items())
+    new_fform = fFormContainer(fform.get_items(), M=fform.get_M())
     new_fform.subs(subs_array)
     iterable = {k:v.astype(complex) for k,v in new_fform.get_items()}
     return fDataContainer(iterable, new_fform.get_M())
@@ -1395,8 +1395,10 @@ def merge_containers(containers, mapping):
     
     if type_d:
         return new_type(iterable, 'radians')
-    else:
+    elif new_type == FormContainer:
         return new_type(iterable)
+    else:
+        return new_type(iterable, M=containers[0].get_M())
 
 
 def read_csv(filename, delimiter=','):
@@ -1649,7 +1651,8 @@ def load_fform(fform_filename):
         k:np.array([sp.sympify(s) for s in v])
         for k,v in str_fform_dict.items()
     }
-    return fFormContainer(_fform_dict)
+    M = max([(len(v)-1)//2 for v in _fform_dict.values()], default=16)
+    return fFormContainer(_fform_dict, M=M)
 
 
 def save_fform(fform, fform_filename):
-- 
2.43.0


From efe739abb3a56d389b23e185d800678295145b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 02/30] fix: make DataContainer.copy and fDataContainer.copy
 faithful

The first always raised; the second turned the phase shift into a tuple.
---
 shgpy/core/data_handler.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index e604551..51e315e 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -66,11 +66,7 @@ class DataContainer:
 
     def copy(self):
         """Return a copy of the DataContainer."""
-        dat = DataContainer(self._data_dict, normal_to_oblique=self.coerced)
-        dat._scale = self._scale
-        dat._phase_shift = self._phase_shift,
-        dat._offset = self._offset
-        return dat
+        return deepcopy(self)
 
     def _check_angle_units(self, angle_units):
         if angle_units not in ['radians', 'degrees']:
@@ -448,10 +444,7 @@ class fDataContainer:
 
     def copy(self):
         """Return a copy of the fDataContainer."""
-        fdat = fDataContainer(self._fdata_dict, M=self._M)
-        fdat._scale = self._scale
-        fdat._phase_shift = self._phase_shift,
-        return fdat
+        return deepcopy(self)
 
     def _check_defining_iterable(self, iterable):
         def raise_error():
-- 
2.43.0


From c7428159f056d12b33a68f16fc4cbab078cfa719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 03/30] fix: scale argument of load_data_and_fourier_transform
 always raised

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 51e315e..5d988f0 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1621,7 +1621,7 @@ def load_data_and_fourier_transform(data_filenames_dict, data_angle_units, dark_
     fdat = dat_to_fdat(dat, interp_kind=interp_kind, M=M)
     if scale != 1:
         dat.scale_data(scale)
-        fdat.scale_data(scale)
+        fdat.scale_fdata(scale)
     return dat, fdat
 
 
-- 
2.43.0


From 23669adc35fb62ed3ea2f257811be884ec36a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 04/30] fix: a container method that fails midway leaves the
 container unchanged

filter, simplify, expand and apply_arbitrary_scale updated one polarization
at a time, so an error on a later one left the container half updated.
---
 shgpy/core/data_handler.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 5d988f0..a1064b2 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -150,9 +150,11 @@ class DataContainer:
             Keywork arguments to pass to `filter`.
 
         """
+        new_data_dict = {}
         for pc, (xdata, ydata) in self._data_dict.items():
-            new_ydata = filter(ydata, *args, **kwargs)
-            self._data_dict[pc] = np.array([xdata, new_ydata])
+            new_ydata = filter(np.copy(ydata), *args, **kwargs)
+            new_data_dict[pc] = np.array([xdata, new_ydata])
+        self._data_dict = new_data_dict
 
     def scale_data(self, scale_factor):
         """Scale the data by a constant factor."""
@@ -881,8 +883,7 @@ class fFormContainer:
         return list(self._fform_dict.items())
 
     def apply_arbitrary_scale(self, scale_var):
-        for k, v in self._fform_dict.items():
-            self._fform_dict[k] = scale_var*v
+        self._fform_dict = {k:scale_var*v for k,v in self._fform_dict.items()}
 
 
 class FormContainer:
@@ -977,13 +978,11 @@ class FormContainer:
 
     def simplify(self):
         """Apply the `sympy.simplify` method to every polarization combination."""
-        for k,v in self.get_items():
-            self._form_dict[k] = sp.simplify(v)
+        self._form_dict = {k:sp.simplify(v) for k,v in self.get_items()}
 
     def expand(self):
         """Apply the `sympy.expand` method to every polarization combination."""
-        for k,v in self.get_items():
-            self._form_dict[k] = sp.expand(v)
+        self._form_dict = {k:sp.expand(v) for k,v in self.get_items()}
 
     def __repr__(self):
         return repr(self.as_pandas())
@@ -1081,8 +1080,7 @@ class FormContainer:
         return self._form_dict[pc]
 
     def apply_arbitrary_scale(self, scale_var):
-        for k, v in self._form_dict.items():
-            self._form_dict[k] = scale_var*v
+        self._form_dict = {k:scale_var*v for k,v in self._form_dict.items()}
 
 
 def n2i(n, M=16):
-- 
2.43.0


From 3699ba5f40458347659b89f49f21807d4620750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 05/30] fix: get_values and get_items hand out copies, as
 get_pc does

Editing a returned array changed the container behind its back (and, for
DataContainer, only when radians were asked for).
---
 shgpy/core/data_handler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index a1064b2..82e7b7c 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -313,7 +313,7 @@ class DataContainer:
         requested_angle_units = requested_angle_units.lower()
         self._check_angle_units(requested_angle_units)
         if requested_angle_units == 'radians':
-            return list(self._data_dict.values())
+            return [np.copy(v) for v in self._data_dict.values()]
         elif requested_angle_units == 'degrees':
             return list(self._get_data_dict_degrees().values())
 
@@ -388,7 +388,7 @@ class DataContainer:
         requested_angle_units = requested_angle_units.lower()
         self._check_angle_units(requested_angle_units)
         if requested_angle_units == 'radians':
-            return list(self._data_dict.items())
+            return [(k, np.copy(v)) for k,v in self._data_dict.items()]
         elif requested_angle_units == 'degrees':
             return list(self._get_data_dict_degrees().items())
 
@@ -536,7 +536,7 @@ class fDataContainer:
             Data for each polarization combination
             in the form `array(shape=(2*M+1,))`
         """
-        return list(self._fdata_dict.values())
+        return [np.copy(v) for v in self._fdata_dict.values()]
 
     def get_items(self):
         """Get a list of `(pc, fdata)` pairs.
@@ -549,7 +549,7 @@ class fDataContainer:
             List of data for each polarization combination, each
             in the form `(pc, array(shape=(2*M+1,)))`
         """
-        return list(self._fdata_dict.items())
+        return [(k, np.copy(v)) for k,v in self._fdata_dict.items()]
 
     def get_scale(self):
         """Get the extent to which this data has been scaled from the original."""
@@ -867,7 +867,7 @@ class fFormContainer:
             Data for each polarization combination
             in the form `array([xdata, ydata])`
         """
-        return list(self._fform_dict.values())
+        return [np.copy(v) for v in self._fform_dict.values()]
 
     def get_items(self):
         """Get a list of `(pc, fformula)` pairs.
@@ -880,7 +880,7 @@ class fFormContainer:
             List of data for each polarization combination, each
             in the form `(pc, array(shape=(2*M+1,)))`
         """
-        return list(self._fform_dict.items())
+        return [(k, np.copy(v)) for k,v in self._fform_dict.items()]
 
     def apply_arbitrary_scale(self, scale_var):
         self._fform_dict = {k:scale_var*v for k,v in self._fform_dict.items()}
-- 
2.43.0


From db0cdb3c99da795cece8ff11edfa7acfc0e87e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 06/30] fix: angles equal modulo a turn are duplicates in any
 order; integer data is not truncated

A point at 360 degrees followed by one at 0 was kept twice, and angles of
integer arrays lost their fractional part when wrapped or rotated.
---
 shgpy/core/data_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 82e7b7c..d5437c4 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -51,7 +51,7 @@ class DataContainer:
         self._check_defining_iterable(iterable)
         self._input_angle_units = input_angle_units
         self._scale = 1
-        self._data_dict = deepcopy(dict(iterable))
+        self._data_dict = {k:v.astype(np.result_type(v.dtype, float)) for k,v in dict(iterable).items()}
         self._phase_shift = 0
         self._offset = 0
         self._coerced = False
@@ -87,7 +87,7 @@ class DataContainer:
             new_ydata = []
             for x,y in zip(v[0], v[1]):
                 if not (x % (2*np.pi)) in new_xdata:
-                    new_xdata.append(x)
+                    new_xdata.append(x % (2*np.pi))
                     new_ydata.append(y)
             if len(new_xdata) != len(v[0]):
                 warn('Duplicate values encountered in data file.')
-- 
2.43.0


From ce2c59d564c7b1d1b2ca145719aee5285e0c077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 07/30] fix: order of free symbols that print alike

It depended on the hash seed of the process, so a cost function saved in one
process could take its arguments in another order in the next.
---
 shgpy/core/data_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index d5437c4..0000287 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -735,7 +735,7 @@ class fFormContainer:
                 for fs in self._fform_dict[k][n2i(m, self._M)].free_symbols:
                     free_symbols.append(fs)
         free_symbols = list(set(free_symbols))
-        free_symbols.sort(key=str)
+        free_symbols.sort(key=lambda fs: (str(fs), sp.srepr(fs)))
         return free_symbols
 
     def subs(self, subs_array):
@@ -929,7 +929,7 @@ class FormContainer:
             for fs in self._form_dict[k].free_symbols:
                 free_symbols.append(fs)
         free_symbols = list(set(free_symbols))
-        free_symbols.sort(key=str)
+        free_symbols.sort(key=lambda fs: (str(fs), sp.srepr(fs)))
         return free_symbols
 
     def subs(self, subs_array):
-- 
2.43.0


From 2912ca8b3769b5e72cc632dfd15d369216d86669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 08/30] fix: a failed or interrupted save of a Fourier formula
 keeps the old file

The file was truncated before the new contents were written.
---
 shgpy/core/data_handler.py |  3 ++-
 shgpy/core/utilities.py    | 18 ++++++++++++++++++
 shgpy/fformgen.py          |  4 ++--
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 0000287..9daa32d 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -11,6 +11,7 @@ from copy import deepcopy
 from .. import shg_symbols as S
 from warnings import warn
 from ._fourier_transform import _fourier_transform
+from .utilities import _replacing
 
 _logger = logging.getLogger(__name__)
 
@@ -1660,5 +1661,5 @@ def save_fform(fform, fform_filename):
         k:np.array([sp.srepr(s) for s in v])
         for k,v in fform._fform_dict.items()    
     }
-    with open(fform_filename, 'wb') as fh:
+    with _replacing(fform_filename) as temp, open(temp, 'wb') as fh:
         pickle.dump(str_fform_dict, fh)
diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index d206885..8f6fedb 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -2,6 +2,10 @@ import numpy as np
 import sympy as sp
 from sympy.solvers import solve
 import itertools
+import os
+import shutil
+import tempfile
+from contextlib import contextmanager
 from warnings import warn
 
 
@@ -361,6 +365,20 @@ def _assert_real_params(chi):
             raise ValueError('Parameters of chi must all be real: %s. Use shgpy.make_tensor_real or shgpy.make_tensor_complex.' % str(fs))
 
 
+@contextmanager
+def _replacing(filename):
+    """Yield the path of a scratch file which, once the block has succeeded,
+    takes the place of `filename`. On failure `filename` stays as it was."""
+    filename = os.path.realpath(filename)
+    folder = tempfile.mkdtemp(dir=os.path.dirname(filename), prefix='.shgpy-')
+    try:
+        temp = os.path.join(folder, os.path.basename(filename))
+        yield temp
+        os.replace(temp, filename)
+    finally:
+        shutil.rmtree(folder, ignore_errors=True)
+
+
 def map_to_real(sym):
     """Map a sympy.Symbol to its real counterpart."""
     return sp.symbols(str(sym), real=True)
diff --git a/shgpy/fformgen.py b/shgpy/fformgen.py
index e1a4507..ece9f5d 100644
--- a/shgpy/fformgen.py
+++ b/shgpy/fformgen.py
@@ -47,7 +47,7 @@ import sys
 import logging
 import time
 
-from .core.utilities import _assert_real_params
+from .core.utilities import _assert_real_params, _replacing
 
 _logger = logging.getLogger(__name__)
 
@@ -121,7 +121,7 @@ def _save_fform_dict(filename, _fform_dict):
         k:np.array([sp.srepr(s) for s in v])
         for k,v in _fform_dict.items()
     }
-    with open(filename, 'wb') as fh:
+    with _replacing(filename) as temp, open(temp, 'wb') as fh:
         pickle.dump(str_fform_dict, fh)
 
 
-- 
2.43.0


From ed9d5c947154987f4f94fc1170db5b026a62dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 09/30] fix: compiled functions read integer, single precision
 and strided arguments correctly

The array's buffer was passed to C as if it always held contiguous doubles.
---
 shgpy/fformfit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 57cbb7e..9b9f470 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -479,6 +479,7 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
             c_lib.autofunc.restype = ctypes.c_double
             _logger.debug(f'Importing shared library took'
                            f' {time.time()-start} seconds.')
+            x = np.ascontiguousarray(x, dtype=float)
             c_x = x.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
             result = c_lib.autofunc(c_x)
             _logger.debug(f'Time spent in func: {time.time()-start}')
@@ -495,6 +496,7 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
                    f' {time.time()-start} seconds.')
 
     def cost_func(x):
+        x = np.ascontiguousarray(x, dtype=float)
         c_x = x.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
         return c_lib.autofunc(c_x)
 
-- 
2.43.0


From 56bd38906da67baf74fd72f82c38566d30fc5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 10/30] fix: basinhopping fits leave the caller's
 basinhopping_kwargs alone

minimizer_kwargs was popped from it, so a second fit with the same options
silently ran with others.
---
 shgpy/fformfit.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 9b9f470..ea37242 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -864,7 +864,7 @@ def basinhopping_fit(fform, fdat, guess_dict, niter, method='BFGS',
     minimizer_kwargs = {'method':method, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
         minimizer_kwargs.update(
-            basinhopping_kwargs.pop('minimizer_kwargs')
+            basinhopping_kwargs['minimizer_kwargs']
         )
 
     _logger.info('Starting basinhopping minimization.')
@@ -875,7 +875,8 @@ def basinhopping_fit(fform, fdat, guess_dict, niter, method='BFGS',
         minimizer_kwargs=minimizer_kwargs,
         niter=niter,
         stepsize=stepsize,
-        **basinhopping_kwargs,
+        **{k:v for k,v in basinhopping_kwargs.items()
+           if k != 'minimizer_kwargs'},
     )
     ret.time = time.time()-start
     ret.xdict = {k:ret.x[i] for i,k in enumerate(free_symbols)}
@@ -969,7 +970,7 @@ def basinhopping_fit_with_bounds(fform, fdat, guess_dict, bounds_dict,
     minimizer_kwargs = {'method':method, 'bounds':bounds, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
         minimizer_kwargs.update(
-            basinhopping_kwargs.pop('minimizer_kwargs')
+            basinhopping_kwargs['minimizer_kwargs']
         )
 
     start = time.time()
@@ -980,7 +981,8 @@ def basinhopping_fit_with_bounds(fform, fdat, guess_dict, bounds_dict,
         minimizer_kwargs=minimizer_kwargs,
         niter=niter,
         stepsize=stepsize,
-        **basinhopping_kwargs,
+        **{k:v for k,v in basinhopping_kwargs.items()
+           if k != 'minimizer_kwargs'},
     )
     ret.time = time.time()-start
     ret.xdict = {k:ret.x[i] for i,k in enumerate(free_symbols)}
@@ -1085,7 +1087,7 @@ def basinhopping_fit_jac(fform, fdat, guess_dict, niter, method='BFGS',
     minimizer_kwargs = {'method':method, 'jac':True, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
         minimizer_kwargs.update(
-            basinhopping_kwargs.pop('minimizer_kwargs')
+            basinhopping_kwargs['minimizer_kwargs']
         )
 
     _logger.info('Starting basinhopping minimization.')
@@ -1096,7 +1098,8 @@ def basinhopping_fit_jac(fform, fdat, guess_dict, niter, method='BFGS',
         minimizer_kwargs=minimizer_kwargs,
         niter=niter,
         stepsize=stepsize,
-        **basinhopping_kwargs,
+        **{k:v for k,v in basinhopping_kwargs.items()
+           if k != 'minimizer_kwargs'},
     )
     ret.time = time.time()-start
     ret.xdict = {k:ret.x[i] for i,k in enumerate(free_symbols)}
@@ -1215,7 +1218,7 @@ def basinhopping_fit_jac_with_bounds(fform, fdat, guess_dict, bounds_dict,
     }
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
         minimizer_kwargs.update(
-            basinhopping_kwargs.pop('minimizer_kwargs')
+            basinhopping_kwargs['minimizer_kwargs']
         )
 
     _logger.info('Starting basinhopping minimization.')
@@ -1226,7 +1229,8 @@ def basinhopping_fit_jac_with_bounds(fform, fdat, guess_dict, bounds_dict,
         minimizer_kwargs=minimizer_kwargs,
         niter=niter,
         stepsize=stepsize,
-        **basinhopping_kwargs,
+        **{k:v for k,v in basinhopping_kwargs.items()
+           if k != 'minimizer_kwargs'},
     )
     ret.time = time.time()-start
     ret.xdict = {k:ret.x[i] for i,k in enumerate(free_symbols)}
-- 
2.43.0


From adb238ee41d9b0b4e1e184f0949923d8c4fd9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 11/30] fix: a cost function that cannot be compiled or copied
 keeps the saved one

The exit status of the compiler was ignored, the old file was removed before
the new one was known to be good, and the scratch directory was left behind.
---
 shgpy/fformfit.py | 49 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index ea37242..a61bb4c 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -14,6 +14,7 @@ import sympy as sp
 from sympy.utilities.codegen import CCodeGen
 import numpy as np
 from .core import n2i
+from .core.utilities import _replacing
 from scipy.optimize import (
     basinhopping,
     least_squares,
@@ -26,6 +27,7 @@ import logging
 from warnings import warn
 import os
 import shutil
+from functools import wraps
 from pathlib import Path
 import ctypes
 from math import ceil
@@ -327,12 +329,31 @@ def _load_func_dict(fform, save_folder, multiprocessing=False):
     return cost_func_dict
 
 
+def _run_compiler(command):
+    if os.system(command) != 0:
+        raise RuntimeError(f'Compiling the generated code failed: {command}')
+
+
+def _in_write_directory(func):
+    # Gives func a scratch directory, which is removed even if func fails.
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        write_directory = Path(tempfile.mkdtemp()).absolute()
+        try:
+            return func(*args, write_directory=write_directory, **kwargs)
+        finally:
+            _rmtree_warn(write_directory)
+    return wrapper
+
+
+@_in_write_directory
 def _fixed_autowrap(
     energy_expr,
     prefix,
     save_filename=None,
     method='gcc',
     multiprocessing=False,
+    write_directory=None,
 ):
 
     codegen = CCodeGen()
@@ -350,8 +371,6 @@ def _fixed_autowrap(
     c_code += bad_c_code
     c_code = c_code.replace('conjugate', 'conj')
 
-    write_directory = Path(tempfile.mkdtemp()).absolute()
-
     c_path = write_directory / Path(prefix + '.c')
     h_path = write_directory / Path(prefix + '.h')
     o_path = write_directory / Path(prefix + '.o')
@@ -366,22 +385,20 @@ def _fixed_autowrap(
 
     start = time.time()
     _logger.debug('Start compiling code.')
-    os.system(f'{method} -w -c -lm {c_path} -o {o_path}')
-    os.system(f'{method} -w -shared {o_path} -o {so_path}')
+    _run_compiler(f'{method} -w -c -lm {c_path} -o {o_path}')
+    _run_compiler(f'{method} -w -shared {o_path} -o {so_path}')
     _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
     if save_filename is not None:
-        if Path(save_filename).exists():
-            Path(save_filename).unlink()
-        shutil.copy(so_path, save_filename)
+        with _replacing(save_filename) as temp:
+            shutil.copy(so_path, temp)
 
     cost_func = _load_func(so_path, multiprocessing=multiprocessing)
 
-    _rmtree_warn(write_directory)
-
     return cost_func
 
 
+@_in_write_directory
 def _make_energy_func_chunked(
     energy_expr_list,
     prefix,
@@ -389,6 +406,7 @@ def _make_energy_func_chunked(
     save_filename=None,
     method='gcc',
     multiprocessing=False,
+    write_directory=None,
 ):
 
     codegen = CCodeGen()
@@ -421,8 +439,6 @@ double autofunc(double *xs){
 #endif
 """)
 
-    write_directory = Path(tempfile.mkdtemp()).absolute()
-
     c_path = write_directory / Path(prefix + '.c')
     h_path = write_directory / Path(prefix + '.h')
     o_path = write_directory / Path(prefix + '.o')
@@ -437,19 +453,16 @@ double autofunc(double *xs){
 
     start = time.time()
     _logger.debug('Start compiling code.')
-    os.system(f'{method} -w -c -lm -fPIC {c_path} -o {o_path}')
-    os.system(f'{method} -w -shared -fPIC {o_path} -o {so_path}')
+    _run_compiler(f'{method} -w -c -lm -fPIC {c_path} -o {o_path}')
+    _run_compiler(f'{method} -w -shared -fPIC {o_path} -o {so_path}')
     _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
     if save_filename is not None:
-        if Path(save_filename).exists():
-            Path(save_filename).unlink()
-        shutil.copy(so_path, save_filename)
+        with _replacing(save_filename) as temp:
+            shutil.copy(so_path, temp)
 
     cost_func = _load_func(so_path, multiprocessing=multiprocessing)
 
-    _rmtree_warn(write_directory)
-
     return cost_func
 
 
-- 
2.43.0


From 8dea12df34275056787aa64d60ab22917778b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 12/30] fix: loading a cost function finds what is saved there
 now

Loading a path for the second time in a process returned the function loaded
first, even after it had been saved again; a bare file name was looked up on
the library path; and with multiprocessing the file was read at every call.
---
 shgpy/fformfit.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index a61bb4c..076a602 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -482,14 +482,31 @@ def load_func(load_cost_func_filename, multiprocessing=False):
     return _load_func(load_cost_func_filename, multiprocessing=multiprocessing)
 
 
+@_in_write_directory
+def _open_library(code, write_directory=None):
+    # The dynamic loader returns the library it already has when a path is
+    # opened again, so every load goes through a path of its own.
+    path = write_directory / Path('SHGPY_FUNC.so')
+    path.write_bytes(code)
+    c_lib = ctypes.PyDLL(str(path))
+    c_lib.autofunc.restype = ctypes.c_double
+    return c_lib
+
+
+_libraries = {}
+
+
 def _load_func(load_cost_func_filename, multiprocessing=False):
 
+    code = Path(load_cost_func_filename).read_bytes()
+
     if multiprocessing:
 
         def cost_func(x):
             start = time.time()
-            c_lib = ctypes.PyDLL(load_cost_func_filename)
-            c_lib.autofunc.restype = ctypes.c_double
+            if code not in _libraries:
+                _libraries[code] = _open_library(code)
+            c_lib = _libraries[code]
             _logger.debug(f'Importing shared library took'
                            f' {time.time()-start} seconds.')
             x = np.ascontiguousarray(x, dtype=float)
@@ -501,10 +518,7 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
         return cost_func
 
     start = time.time()
-    if isinstance(load_cost_func_filename, Path):
-        load_cost_func_filename = str(load_cost_func_filename.absolute())
-    c_lib = ctypes.PyDLL(load_cost_func_filename)
-    c_lib.autofunc.restype = ctypes.c_double
+    c_lib = _open_library(code)
     _logger.debug(f'Importing shared library took'
                    f' {time.time()-start} seconds.')
 
-- 
2.43.0


From ec8512982f4b6fb9c3cf9239dd04b7f5e2eacace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 13/30] fix: a model function that cannot be generated keeps
 the saved one, and an incomplete folder is not loaded

The old folder was removed first, compiler errors were ignored, scratch
directories were left behind, and loading took missing parts for zero.
---
 shgpy/fformfit.py | 107 +++++++++++++++++++++++-----------------------
 1 file changed, 54 insertions(+), 53 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 076a602..95569cf 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -26,7 +26,9 @@ import time
 import logging
 from warnings import warn
 import os
+import re
 import shutil
+from contextlib import contextmanager
 from functools import wraps
 from pathlib import Path
 import ctypes
@@ -152,6 +154,31 @@ def _make_model_expr(fform, pc, m, component, free_symbols=None):
     return model_expr
 
 
+@contextmanager
+def _replacing_folder(folder):
+    # Yields a new folder which takes the place of `folder` if all goes well.
+    if folder is None:
+        yield None
+        return
+    folder = Path(os.path.realpath(folder))
+    if folder.exists() and not folder.is_dir():
+        raise FileExistsError(f'{folder} is not a folder.')
+    stage = Path(tempfile.mkdtemp(dir=folder.parent, prefix='.shgpy-'))
+    try:
+        Path.mkdir(stage / 'new')
+        yield stage / 'new'
+        if folder.exists():
+            os.rename(folder, stage / 'old')
+        try:
+            os.rename(stage / 'new', folder)
+        except BaseException:
+            if (stage / 'old').exists():
+                os.rename(stage / 'old', folder)
+            raise
+    finally:
+        _rmtree_warn(stage)
+
+
 def _fixed_autowrap_model(
     fform,
     save_folder,
@@ -161,13 +188,6 @@ def _fixed_autowrap_model(
     multiprocessing=False,
 ):
 
-    codegen = CCodeGen()
-
-    if save_folder is not None:
-        if Path(save_folder).exists():
-            _rmtree_warn(save_folder)
-        Path.mkdir(Path(save_folder))
-
     cost_func_dict = {}
     M = fform.get_M()
 
@@ -187,49 +207,20 @@ def _fixed_autowrap_model(
                 expr_chunks = _split_expr(full_expr, max_terms_per_file)
                 cost_func_dict[k][m][component] = []
                 for ei, expr in enumerate(expr_chunks):
-                    routines = []
                     prefix = '_'.join((k, str(m), component, str(ei)))
-                    routines.append(
-                        codegen.routine(
-                            'autofunc',
-                            expr,
-                        ),
-                    )
-                    [(c_name, bad_c_code), (h_name, h_code)] = codegen.write(
-                        routines,
-                        prefix,
-                    )
-                    c_code = '#include <complex.h>\n'
-                    c_code += bad_c_code
-                    c_code = c_code.replace('conjugate', 'conj')
-
-                    write_directory = Path(tempfile.mkdtemp()).absolute()
-
-                    c_path = write_directory / Path(prefix + '.c')
-                    h_path = write_directory / Path(prefix + '.h')
-                    o_path = write_directory / Path(prefix + '.o')
-                    so_path = write_directory / Path(prefix + '.so')
-
-                    with open(c_path, 'w') as fh:
-                        fh.write(c_code)
-                        fh.write('\n')
-                    with open(h_path, 'w') as fh:
-                        fh.write(h_code)
-                        fh.write('\n')
-
-                    start = time.time()
-                    _logger.debug(f'Start compiling code for PC={k}, m={m}')
-                    os.system(f'{method} -w -c -lm {c_path} -o {o_path}')
-                    os.system(f'{method} -w -shared {o_path} -o {so_path}')
-                    _logger.debug(f'Compiling code took {time.time()-start} seconds.')
-
                     if save_folder is not None:
-                        shutil.copy(so_path, Path(save_folder))
-
+                        save_filename = Path(save_folder) / (prefix + '.so')
+                    else:
+                        save_filename = None
                     cost_func_dict[k][m][component].append(
-                        _load_func(so_path, multiprocessing=multiprocessing),
+                        _fixed_autowrap(
+                            expr,
+                            prefix,
+                            save_filename,
+                            method=method,
+                            multiprocessing=multiprocessing,
+                        ),
                     )
-                    _rmtree_warn(write_directory)
 
     return cost_func_dict
 
@@ -258,12 +249,13 @@ def gen_model_func(fform, save_folder, method='gcc', max_terms_per_file=10):
         combination, and `m` is the Fourier component.
 
     """
-    cost_func_dict = _fixed_autowrap_model(
-        fform,
-        save_folder,
-        method=method,
-        max_terms_per_file=max_terms_per_file,
-    )
+    with _replacing_folder(save_folder) as temp_folder:
+        cost_func_dict = _fixed_autowrap_model(
+            fform,
+            temp_folder,
+            method=method,
+            max_terms_per_file=max_terms_per_file,
+        )
 
     def model_func(xs, pc, m):
         return sum(
@@ -321,7 +313,16 @@ def _load_func_dict(fform, save_folder, multiprocessing=False):
             cost_func_dict[k][m] = {}
             for component in ['real', 'imag']:
                 cost_func_dict[k][m][component] = []
-                for path in save_folder.glob('_'.join((k, str(m), component))+'*.so'):
+                prefix = re.escape('_'.join((k, str(m), component)))
+                paths = [
+                    p for p in save_folder.iterdir()
+                    if re.fullmatch(prefix + r'_\d+\.so', p.name)
+                ]
+                if not paths:
+                    raise FileNotFoundError(
+                        f'No {component} part of pc={k}, m={m} in {save_folder}.'
+                    )
+                for path in sorted(paths):
                     _logger.debug(f'Loading cost function from {path}')
                     cost_func_dict[k][m][component].append(
                         _load_func(path, multiprocessing=multiprocessing),
-- 
2.43.0


From a103dd45a16733db74a3d837eeb4cbe5fd5483e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 14/30] fix: saved gradients always belong together and to
 their cost function

A failure part way left new and old functions side by side, components of an
earlier formula with more parameters stayed and were loaded too, missing
gradients loaded as an empty one, and path objects were not accepted.
---
 shgpy/fformfit.py | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 95569cf..11c6553 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -605,14 +605,38 @@ def _make_denergy_func_auto(denergy_expr, save_filename_prefix=None):
             new_func = _fixed_autowrap(expr, 'SHGPY_COST_FUNC')
         else:
             new_func = _fixed_autowrap(expr, 'SHGPY_COST_FUNC',
-                            Path(save_filename_prefix+str(i)+'.so'))
+                            Path(str(save_filename_prefix)+str(i)+'.so'))
         funcs.append(new_func)
     return lambda x: np.array([func(x) for func in funcs])
 
 
+def _publish_energy_and_denergy_func(staged_filename, staged_prefix, n,
+                                     save_filename, grad_save_filename_prefix):
+    # Without number 0 the gradient cannot be loaded, so taking that one away
+    # first and putting it back last never leaves a mixture of two saves.
+    def grad_path(i):
+        return Path(str(grad_save_filename_prefix)+str(i)+'.so')
+
+    if grad_save_filename_prefix is not None:
+        grad_path(0).unlink(missing_ok=True)
+        i = n
+        while grad_path(i).exists():
+            grad_path(i).unlink()
+            i += 1
+    if save_filename is not None:
+        with _replacing(save_filename) as temp:
+            shutil.copy(staged_filename, temp)
+    if grad_save_filename_prefix is not None:
+        for i in reversed(range(n)):
+            with _replacing(grad_path(i)) as temp:
+                shutil.copy(staged_prefix+str(i)+'.so', temp)
+
+
+@_in_write_directory
 def _make_energy_and_denergy_func_wrapper(fform, fdat, free_symbols=None,
                                            chunk=False, save_filename=None,
-                                           grad_save_filename_prefix=None):
+                                           grad_save_filename_prefix=None,
+                                           write_directory=None):
 
     if chunk:
         raise NotImplementedError('Chunking the gradient function is not'
@@ -620,12 +644,21 @@ def _make_energy_and_denergy_func_wrapper(fform, fdat, free_symbols=None,
     else:
         energy_expr = _make_energy_expr(fform, fdat, free_symbols)
         denergy_expr = _make_denergy_expr(energy_expr)
+        staged_filename = write_directory / 'cost.so'
+        staged_prefix = str(write_directory / 'grad')
         f_energy = _make_energy_func_auto(
             energy_expr,
-            save_filename,
+            staged_filename,
         )
         df_energy = _make_denergy_func_auto(
             denergy_expr,
+            staged_prefix,
+        )
+        _publish_energy_and_denergy_func(
+            staged_filename,
+            staged_prefix,
+            len(denergy_expr),
+            save_filename,
             grad_save_filename_prefix,
         )
         fdf_energy = lambda x: (f_energy(x), df_energy(x))
@@ -643,11 +676,11 @@ def _load_energy_and_denergy_func(load_cost_func_filename,
     funcs = []
     i = 0
     while True:
-        new_filename = load_grad_cost_func_filename_prefix+str(i)+'.so'
+        new_filename = str(load_grad_cost_func_filename_prefix)+str(i)+'.so'
         if Path(new_filename).exists():
             funcs.append(
                 _load_func(
-                    load_grad_cost_func_filename_prefix+str(i)+'.so',
+                    new_filename,
                     multiprocessing=multiprocessing,
                 )
             )
@@ -655,6 +688,8 @@ def _load_energy_and_denergy_func(load_cost_func_filename,
         else:
             _logger.debug('Loaded {i} gradient functions.')
             break
+    if not funcs:
+        raise FileNotFoundError(f'No gradient functions at {new_filename}.')
     df_energy = lambda x: np.array([func(x) for func in funcs])
     fdf_energy = lambda x: (f_energy(x), df_energy(x))
     return fdf_energy
-- 
2.43.0


From 8554f10621ccaf98c599cbd5d9ddaa1508e5ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 15/30] fix: an interrupted save of uncontracted transforms
 does not leave a mixed set

Files of the new save were used together with those of an earlier one. Also
leave the print options of numpy alone.
---
 shgpy/fformgen.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/shgpy/fformgen.py b/shgpy/fformgen.py
index ece9f5d..2ed2e3e 100644
--- a/shgpy/fformgen.py
+++ b/shgpy/fformgen.py
@@ -43,9 +43,9 @@ from .core import (
 )
 from . import shg_symbols as S
 import pickle
-import sys
 import logging
 import time
+from pathlib import Path
 
 from .core.utilities import _assert_real_params, _replacing
 
@@ -112,6 +112,12 @@ def _convolve_ftensors(nR1, nR2, M=16, dtype=object):
     return ans
 
 
+def _forget_uncontracted(uncontracted_filename_prefix):
+    # The four files only make sense together: without '_pp', which is written
+    # last, a half-finished save cannot be mistaken for a complete one.
+    Path(uncontracted_filename_prefix+'_pp.npy').unlink(missing_ok=True)
+
+
 def _load_pickle(filename):
     return np.load(filename, allow_pickle=True)
 
@@ -171,7 +177,6 @@ def generate_uncontracted_fourier_transforms(aoi,
     ## tensor product.
     ## 
     F = np.array([S.Fx, S.Fy, S.Fz])
-    np.set_printoptions(threshold=sys.maxsize)
     R = np.array(rotation_matrix3symb([0, 0, 1], S.phi, ndigits=5))
     Id = np.identity(3)
     k_out = _substitute_into_array(
@@ -382,10 +387,11 @@ def generate_uncontracted_fourier_transforms(aoi,
     ## All that's left is to save these h7 tensors
     ## to a file.
     ##
-    np.save(uncontracted_filename_prefix+'_pp', h7_pp)
-    np.save(uncontracted_filename_prefix+'_ps', h7_ps)
-    np.save(uncontracted_filename_prefix+'_sp', h7_sp)
+    _forget_uncontracted(uncontracted_filename_prefix)
     np.save(uncontracted_filename_prefix+'_ss', h7_ss)
+    np.save(uncontracted_filename_prefix+'_sp', h7_sp)
+    np.save(uncontracted_filename_prefix+'_ps', h7_ps)
+    np.save(uncontracted_filename_prefix+'_pp', h7_pp)
 
 
 def generate_uncontracted_fourier_transforms_symb(uncontracted_filename_prefix,
@@ -420,7 +426,6 @@ def generate_uncontracted_fourier_transforms_symb(uncontracted_filename_prefix,
     ## tensor product.
     ## 
     F = np.array([S.Fx, S.Fy, S.Fz])
-    np.set_printoptions(threshold=sys.maxsize)
     R = np.array(rotation_matrix3symb([0, 0, 1], S.phi, ndigits=5))
     Id = np.identity(3)
     k_out = np.array([-sp.sin(S.theta), 0, -sp.cos(S.theta)])
@@ -625,10 +630,11 @@ def generate_uncontracted_fourier_transforms_symb(uncontracted_filename_prefix,
     ## All that's left is to save these h7 tensors
     ## to a file.
     ##
-    np.save(uncontracted_filename_prefix+'_pp', h7_pp)
-    np.save(uncontracted_filename_prefix+'_ps', h7_ps)
-    np.save(uncontracted_filename_prefix+'_sp', h7_sp)
+    _forget_uncontracted(uncontracted_filename_prefix)
     np.save(uncontracted_filename_prefix+'_ss', h7_ss)
+    np.save(uncontracted_filename_prefix+'_sp', h7_sp)
+    np.save(uncontracted_filename_prefix+'_ps', h7_ps)
+    np.save(uncontracted_filename_prefix+'_pp', h7_pp)
 
 
 def generate_contracted_fourier_transforms_complex(*args, **kwargs):
-- 
2.43.0


From 2588be2472f5c9eef224431042f4592e19a9fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 16/30] fix: generate uncontracted transforms for other numbers
 of frequencies than 16

---
 shgpy/fformgen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shgpy/fformgen.py b/shgpy/fformgen.py
index 2ed2e3e..9f0c79d 100644
--- a/shgpy/fformgen.py
+++ b/shgpy/fformgen.py
@@ -97,11 +97,13 @@ def _conjugate_tensor(tensor):
     return ans.reshape(tensor.shape)
 
 
-def _convolve_ftensors(nR1, nR2, M=16, dtype=object):
+def _convolve_ftensors(nR1, nR2, M=None, dtype=object):
+    if M is None:
+        M = (len(nR1)-1)//2
     test_prod = tensor_product(nR1[0], nR2[0])
     ans = np.zeros(dtype=dtype, shape=(2*M+1,)+test_prod.shape)
     for n in np.arange(-M, M+1):
-        for m in np.arange(-M, M+1):
+        for m in np.arange(max(-M, n-M), min(M, n+M)+1):
             try:
                 ans[n2i(n, M)] += tensor_product(
                     nR1[n2i(m, M)],
-- 
2.43.0


From 5e474b7cc8f143e91ffbc2cdafe9c4b29f4c3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 17/30] fix: rotation matrices leave the axis they are given
 unchanged

---
 shgpy/core/utilities.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 8f6fedb..8e0b147 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -171,8 +171,7 @@ def rotation_matrix3(n, t):
     rotation_matrix3 : ndarray of float
     """
     n_mag = _norm(n)
-    for i in range(3):
-        n[i] /= n_mag
+    n = [n[i]/n_mag for i in range(3)]
     c = np.cos(t)
     s = np.sin(t)
     nx,ny,nz = n
@@ -197,8 +196,7 @@ def rotation_matrix3symb(n,t, ndigits=16):
     rotation_matrix3symb : ndarray of sympy.Expr
     """
     n_mag = _normsymb(n)
-    for i in range(3):
-        n[i] /= n_mag
+    n = [n[i]/n_mag for i in range(3)]
     c = sp.cos(t)
     s = sp.sin(t)
     nx,ny,nz = n
-- 
2.43.0


From 613e4f7557c0f12dfdf49bd4b528a3a73847666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 18/30] fix: constant integer parts of model functions are
 returned as doubles

---
 shgpy/fformfit.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 11c6553..0352c4a 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -11,7 +11,7 @@ relevant `scipy` documentation for more info.
 
 """
 import sympy as sp
-from sympy.utilities.codegen import CCodeGen
+from sympy.utilities.codegen import CCodeGen, Result, default_datatypes
 import numpy as np
 from .core import n2i
 from .core.utilities import _replacing
@@ -347,6 +347,17 @@ def _in_write_directory(func):
     return wrapper
 
 
+def _double_routine(codegen, name, expr, argument_sequence=None):
+    # Left alone, codegen declares a function whose value is an integer
+    # (0 included) to return int, but it is called as one returning double.
+    routine = codegen.routine(name, expr, argument_sequence)
+    routine.results = [
+        Result(r.expr, r.name, r.result_var, default_datatypes['float'])
+        for r in routine.results
+    ]
+    return routine
+
+
 @_in_write_directory
 def _fixed_autowrap(
     energy_expr,
@@ -362,7 +373,7 @@ def _fixed_autowrap(
     routines = []
     _logger.debug('Writing code for energy_expr')
     routines.append(
-        codegen.routine('autofunc', energy_expr)
+        _double_routine(codegen, 'autofunc', energy_expr)
     )
     [(c_name, bad_c_code), (h_name, h_code)] = codegen.write(
         routines,
@@ -416,7 +427,7 @@ def _make_energy_func_chunked(
     for i, expr in enumerate(energy_expr_list):
         _logger.debug(f'Writing code for expr {i} of {len(energy_expr_list)}')
         routines.append(
-            codegen.routine('expr'+str(i), expr, argument_sequence=[variable])
+            _double_routine(codegen, 'expr'+str(i), expr, [variable])
         )
     [(c_name, bad_c_code), (h_name, h_code)] = codegen.write(
         routines,
-- 
2.43.0


From 59ba33cad61b861b9cbea807037ef2a97e6faa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 19/30] fix: parameters without assumptions are real in
 compiled functions

---
 shgpy/fformfit.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 0352c4a..cc19503 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -83,6 +83,19 @@ def _check_fform(fform):
         return ret
 
 
+def _parameter_mapping(free_symbols, xs):
+    # The parameters are passed as doubles, i.e. they are real even if their
+    # symbols do not say so; conjugate(xs[i]) can not be written in C.
+    real = {
+        fs:sp.Dummy(str(fs), real=True)
+        for fs in free_symbols
+        if fs.is_real is None
+    }
+    mapping = {real.get(fs, fs):xs[i] for i, fs in enumerate(free_symbols)}
+    mapping[sp.I] = 1j
+    return real, mapping
+
+
 def _make_energy_expr(fform, fdat, free_symbols=None):
 
     if free_symbols is None:
@@ -91,13 +104,13 @@ def _make_energy_expr(fform, fdat, free_symbols=None):
     M = fform.get_M()
     energy_expr = 0
     xs = sp.MatrixSymbol('xs', len(free_symbols), 1)
-    mapping = {fs:xs[i] for i, fs in enumerate(free_symbols)}
-    mapping[sp.I] = 1j
+    real, mapping = _parameter_mapping(free_symbols, xs)
     start = time.time()
     for k in fform.get_keys():
         for m in np.arange(-M, M+1):
             _logger.debug(f'Computing cost function term pc={k} m={m}')
-            expr0 = fform.get_pc(k)[n2i(m, M)] - fdat.get_pc(k)[n2i(m, M)]
+            expr0 = fform.get_pc(k)[n2i(m, M)].xreplace(real)
+            expr0 = expr0 - fdat.get_pc(k)[n2i(m, M)]
             energy_expr += (expr0*sp.conjugate(expr0)).xreplace(mapping)
     _logger.debug('Cost expression evaluation took'
                    f' {time.time()-start} seconds.')
@@ -113,13 +126,13 @@ def _make_energy_expr_list(fform, fdat, free_symbols=None):
     M = fform.get_M()
     energy_expr_list = []
     xs = sp.MatrixSymbol('xs', len(free_symbols), 1)
-    mapping = {fs:xs[i] for i, fs in enumerate(free_symbols)}
-    mapping[sp.I] = 1j
+    real, mapping = _parameter_mapping(free_symbols, xs)
     start = time.time()
     for k in fform.get_keys():
         for m in np.arange(-M, M+1):
             _logger.debug(f'Computing cost function term pc={k} m={m}')
-            expr0 = fform.get_pc(k)[n2i(m, M)] - fdat.get_pc(k)[n2i(m, M)]
+            expr0 = fform.get_pc(k)[n2i(m, M)].xreplace(real)
+            expr0 = expr0 - fdat.get_pc(k)[n2i(m, M)]
             energy_expr_list.append(
                 (expr0*sp.conjugate(expr0)).xreplace(mapping)
             )
@@ -141,14 +154,14 @@ def _make_model_expr(fform, pc, m, component, free_symbols=None):
 
     M = fform.get_M()
     xs = sp.MatrixSymbol('xs', len(free_symbols), 1)
-    mapping = {fs:xs[i] for i, fs in enumerate(free_symbols)}
-    mapping[sp.I] = 1j
+    real, mapping = _parameter_mapping(free_symbols, xs)
     start = time.time()
     _logger.debug(f'Computing cost function term pc={pc} m={m}')
+    expr0 = fform.get_pc(pc)[n2i(m, M)].xreplace(real)
     if component == 'real':
-        model_expr = sp.re(fform.get_pc(pc)[n2i(m, M)]).xreplace(mapping)
+        model_expr = sp.re(expr0).xreplace(mapping)
     elif component == 'imag':
-        model_expr = sp.im(fform.get_pc(pc)[n2i(m, M)]).xreplace(mapping)
+        model_expr = sp.im(expr0).xreplace(mapping)
     _logger.debug('Cost expression evaluation took'
                    f' {time.time()-start} seconds.')
     return model_expr
-- 
2.43.0


From 40d21e4a0ed80e1149372b78461f64438f0f6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 20/30] fix: dual annealing fits work with scipy 1.8 and newer

---
 shgpy/fformfit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index cc19503..e58a672 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -30,6 +30,7 @@ import re
 import shutil
 from contextlib import contextmanager
 from functools import wraps
+from inspect import signature
 from pathlib import Path
 import ctypes
 from math import ceil
@@ -1440,13 +1441,18 @@ def dual_annealing_fit_with_bounds(
     if bounds_dict is None:
         bounds = None
 
+    # scipy 1.8 renamed `local_search_options` to `minimizer_kwargs`.
+    if 'minimizer_kwargs' in signature(dual_annealing).parameters:
+        local_search_kwargs = {'minimizer_kwargs':local_search_options}
+    else:
+        local_search_kwargs = {'local_search_options':local_search_options}
+
     start = time.time()
     _logger.info('Starting simulated annealing.')
     ret = dual_annealing(
         f_energy,
         bounds,
         maxiter=maxiter,
-        local_search_options=local_search_options,
         initial_temp=initial_temp,
         restart_temp_ratio=restart_temp_ratio,
         visit=visit,
@@ -1456,6 +1462,7 @@ def dual_annealing_fit_with_bounds(
         no_local_search=no_local_search,
         callback=callback,
         x0=x0,
+        **local_search_kwargs,
     )
     ret.time = time.time()-start
     ret.xdict = {k:ret.x[i] for i,k in enumerate(free_symbols)}
-- 
2.43.0


From b1b379f4b622a124260525b0af0b065965ee260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 21/30] fix: Fourier transform of formulas with bare, constant
 or unexpanded terms

---
 shgpy/core/_fourier_transform.py | 110 ++++++++-----------------------
 1 file changed, 28 insertions(+), 82 deletions(-)

diff --git a/shgpy/core/_fourier_transform.py b/shgpy/core/_fourier_transform.py
index 45e68d3..7838f3b 100644
--- a/shgpy/core/_fourier_transform.py
+++ b/shgpy/core/_fourier_transform.py
@@ -18,90 +18,36 @@ def n2i(n, M=16):
     return n+M
 
 
-def _get_keyterms(expr):
-    keyterms = []
-
-    def gen(expr):
-        for arg in expr.args:
-            if S.phi in arg.free_symbols:
-                if arg.func == sp.Pow:
-                    for i in range(arg.args[1]):
-                        yield arg.args[0]
-                else:
-                    yield arg
-
-    if expr.func == sp.Mul:
-        keyterms.append(sp.Mul(*gen(expr)))
-    elif expr.func == sp.Add:
-        for arg in expr.args:
-            keyterms.append(sp.Mul(*gen(arg)))
-    else:
-        keyterms.append(expr)
-    return list(set(keyterms))
-
-
-def _get_code(mul):
-    num_cos = 0
-    num_sin = 0
-    if mul.func == sp.Mul:
-        for arg in mul.args:
-            if arg.func == sp.Pow:
-                tp = arg.args[0].func
-                if tp == sp.sin:
-                    num_sin += arg.args[1]
-                elif tp == sp.cos:
-                    num_cos += arg.args[1]
-            else:
-                tp = arg.func
-                if tp == sp.sin:
-                    num_sin += 1
-                elif tp == sp.cos:
-                    num_cos += 1
-    elif mul.func == sp.Pow:
-        tp = mul.args[0].func
-        if tp == sp.sin:
-            num_sin = mul.args[1]
-        elif tp == sp.cos:
-            num_cos = mul.args[1]
-    return num_cos, num_sin
+def _separate(expr):
+    # Pairs of (coefficient, function of phi) whose products add up to expr.
+    return [
+        arg.as_independent(S.phi, as_Add=False)
+        for arg in sp.Add.make_args(expr)
+    ]
 
 
 def _fourier_transform(expr, n, M=16):
-    if expr.func == sp.Add or S.phi not in expr.free_symbols:
-        if S.phi not in expr.free_symbols:
-            if n == 0:
-                return expr
-            return 0
-        relevant_codes = {}
-        for code in _lookup_table.keys():
-            relevant_codes[code] = _lookup_table[code][n2i(n, M=16)]
-        mapping = {
-            sp.cos(S.phi)**code[0]*sp.sin(S.phi)**code[1]:ftval
-            for code, ftval in relevant_codes.items()
-        }
-        start = time.time()
-        args = []
-        for arg in expr.args:
-            has_phi = []
-            no_phi = []
-            for a in arg.args:
-                if a.has(S.phi):
-                    has_phi.append(a)
-                else:
-                    no_phi.append(a)
-            no_phi.append(mapping[sp.Mul(*has_phi)])
-            args.append(sp.Mul(*no_phi))
-        ans = expr.func(*args)
-        _logger.debug(f'Computing n={n} took {time.time()-start} seconds.')
-    else:
-        _logger.debug(f'Computing term n={n}, only one arg')
-        keyterms = _get_keyterms(expr)
-        assert len(keyterms) == 1
-        keyterm = keyterms[0]
-        code = _get_code(keyterm)
-        ftval = _lookup_table[code][n2i(n, M=16)]
-        if ftval != 0:
-            ans = expr / keyterm * ftval
+    if S.phi not in expr.free_symbols:
+        return expr if n == 0 else 0
+    mapping = {
+        sp.cos(S.phi)**code[0]*sp.sin(S.phi)**code[1]:ftvals[n2i(n, M=16)]
+        for code, ftvals in _lookup_table.items()
+    }
+    start = time.time()
+    terms = _separate(expr)
+    if not all(has_phi in mapping for _, has_phi in terms):
+        terms = _separate(sp.expand(expr, trig=True))
+    args = []
+    for no_phi, has_phi in terms:
+        if has_phi not in mapping:
+            raise ValueError(
+                f'Cannot Fourier transform {has_phi}, which is not a product'
+                ' of (not too high) powers of cos(phi) and sin(phi).'
+            )
+        if has_phi == 1:
+            args.append(no_phi if n == 0 else 0)
         else:
-            ans = 0
+            args.append(no_phi*mapping[has_phi])
+    ans = sp.Add(*args)
+    _logger.debug(f'Computing n={n} took {time.time()-start} seconds.')
     return ans
-- 
2.43.0


From 5c8f484bf0f0b2e693a9b1c43ec546374e5102fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 22/30] fix: merging FormContainers keeps their formulas sympy
 expressions

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 9daa32d..99d0c0b 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1380,7 +1380,7 @@ def merge_containers(containers, mapping):
             items = container.get_items()
         for k,v in items:
             new_k = mapping(k, i)
-            new_v = np.copy(v)
+            new_v = v if new_type == FormContainer else np.copy(v)
             iterable[new_k] = new_v
             if type(container) != new_type:
                 raise TypeError('Containers are of different types.')
-- 
2.43.0


From 43dddbdce102c353031c44b44cba565c69c20693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 23/30] fix: a cost function that cannot be loaded does not
 replace the saved one

---
 shgpy/fformfit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index e58a672..1d52a72 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -415,12 +415,12 @@ def _fixed_autowrap(
     _run_compiler(f'{method} -w -shared {o_path} -o {so_path}')
     _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
+    cost_func = _load_func(so_path, multiprocessing=multiprocessing)
+
     if save_filename is not None:
         with _replacing(save_filename) as temp:
             shutil.copy(so_path, temp)
 
-    cost_func = _load_func(so_path, multiprocessing=multiprocessing)
-
     return cost_func
 
 
@@ -483,12 +483,12 @@ double autofunc(double *xs){
     _run_compiler(f'{method} -w -shared -fPIC {o_path} -o {so_path}')
     _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
+    cost_func = _load_func(so_path, multiprocessing=multiprocessing)
+
     if save_filename is not None:
         with _replacing(save_filename) as temp:
             shutil.copy(so_path, temp)
 
-    cost_func = _load_func(so_path, multiprocessing=multiprocessing)
-
     return cost_func
 
 
-- 
2.43.0


From 32b0b979a38f8ac6865c0bdba99fff4a36c20d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 24/30] fix: an argument list that lacks a parameter is refused

---
 shgpy/fformfit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 1d52a72..b50fde5 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -560,6 +560,11 @@ def _make_energy_func_wrapper(fform, fdat, free_symbols=None,
                               chunk=False, save_filename=None,
                               method='gcc'):
 
+    if free_symbols is not None:
+        missing = set(fform.get_free_symbols()) - set(free_symbols)
+        if missing:
+            raise ValueError(f'No arguments for the parameters {missing}.')
+
     if chunk:
         energy_expr_list, xs = _make_energy_expr_list(
             fform,
-- 
2.43.0


From aee10ddd209ccf0fb4ef7546e8c88dde71f1ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 25/30] fix: tensor parameters whose names hold commas or
 spaces are made real or complex

---
 shgpy/core/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 8e0b147..7c9c871 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -88,7 +88,7 @@ def _make_parameters_in_expr_complex(expr, prefix=('real_', 'imag_'), suffix=(''
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(str(fs), sp.symbols(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.symbols(prefix[1]+str(fs)+suffix[1], real=True))
+            expr = expr.subs(fs, sp.Symbol(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.Symbol(prefix[1]+str(fs)+suffix[1], real=True))
     return expr
 
 
@@ -96,7 +96,7 @@ def _make_parameters_in_expr_real(expr):
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(str(fs), sp.symbols(str(fs), real=True))
+            expr = expr.subs(fs, sp.Symbol(str(fs), real=True))
     return expr
 
 
-- 
2.43.0


From 978ed60ad52889b1fd3183d27b5d651a14cf8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:29 +0000
Subject: [PATCH 26/30] fix: symmetric tensors and tensors with plain numbers
 can be particularized

---
 shgpy/core/utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 7c9c871..f784d0a 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -27,7 +27,7 @@ def _particularize_last_two(tensor, exclude=[]):
         return sols
 
     def _apply_sol_to_tensor(tensor, sol):
-        return np.array([fa.subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
+        return np.array([sp.sympify(fa).subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
 
     if np.array_equal(_swap_last_two_indices(tensor), tensor):
         return tensor
@@ -38,7 +38,7 @@ def _particularize_last_two(tensor, exclude=[]):
 def _particularize_all(tensor, exclude=[]):
     
     def _apply_sol_to_tensor(tensor, sol):
-        return np.array([fa.subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
+        return np.array([sp.sympify(fa).subs(sol) for fa in tensor.flatten()]).reshape(tensor.shape)
 
     expr_list = []
     rank = len(tensor.shape)
@@ -48,6 +48,9 @@ def _particularize_all(tensor, exclude=[]):
         for j in set(itertools.permutations(i)):
             expr_list.append(tensor[i]-tensor[j])
 
+    if not any(expr_list):
+        return tensor
+
     sols = solve(expr_list, dict=True, exclude=exclude)
     
     return _apply_sol_to_tensor(tensor, sols[0])
-- 
2.43.0


From 4c49e3c754a1cc4fbef0b9aaa468df1f32c967ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 27/30] fix: formulas that expand to zero can be Fourier
 transformed

---
 shgpy/core/_fourier_transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shgpy/core/_fourier_transform.py b/shgpy/core/_fourier_transform.py
index 7838f3b..0437382 100644
--- a/shgpy/core/_fourier_transform.py
+++ b/shgpy/core/_fourier_transform.py
@@ -23,6 +23,7 @@ def _separate(expr):
     return [
         arg.as_independent(S.phi, as_Add=False)
         for arg in sp.Add.make_args(expr)
+        if arg != 0
     ]
 
 
-- 
2.43.0


From ee944c3bce6c4b64ac4e6c02205eca535e782f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 28/30] fix: contraction with another M than the uncontracted
 transforms have

---
 shgpy/fformgen.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/shgpy/fformgen.py b/shgpy/fformgen.py
index 9f0c79d..c81f034 100644
--- a/shgpy/fformgen.py
+++ b/shgpy/fformgen.py
@@ -666,7 +666,8 @@ def generate_contracted_fourier_transforms(save_filename,
     M : int, optional
         Number of Fourier frequencies to compute. Default is 16.
         The Fourier formulas produced with this function have ``2*M+1``
-        elements each.
+        elements each. Must not be larger than the `M` that the uncontracted
+        Fourier transforms were generated with.
     ndigits : int, optional
         Number of digits to round to for each term in the Fourier formula.
         If `None`, no rounding is done. Default is `None`.
@@ -674,7 +675,8 @@ def generate_contracted_fourier_transforms(save_filename,
     Raises
     ------
     ValueError
-        If not all parameters of `chi_dipole` and `chi_quadrupole`
+        If `M` is larger than that of the uncontracted Fourier transforms, or
+        if not all parameters of `chi_dipole` and `chi_quadrupole`
         hardcoded as real, i.e. you must specifically indicate the
         real and imaginary parts of each variable in `chi_dipole` and
         `chi_quadrupole` (see :func:`~shgpy.core.utilities.make_tensor_complex`
@@ -734,11 +736,15 @@ def generate_contracted_fourier_transforms(save_filename,
     for pc,h7_pc in terms_dict.items():
         _fform_dict[pc] = np.zeros(shape=(2*M+1,), dtype=object)
         for term in range(len(h7_pc)):
+            M_term = (len(h7_pc[term])-1)//2
+            if M > M_term:
+                raise ValueError('The uncontracted Fourier transforms have '
+                                 'only frequencies up to M=%s.' % M_term)
             t8_pc_term = np.array(
                 [
                     tensor_contract(
                         tensor_product(
-                            h7_pc[term][n2i(m, M)],
+                            h7_pc[term][n2i(m, M_term)],
                             chi_list_1[term],
                         ),
                         contraction_lists_1[term],
-- 
2.43.0


From 87aab27b853ad509f88b95a64e6f0b22e6fbba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 29/30] fix: formulas that do not depend on the angle can be
 converted to data

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 99d0c0b..0cca650 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1255,7 +1255,7 @@ def form_to_dat(form, subs_dict, num_points):
     subs_array = [(k,subs_dict[k]) for k in subs_dict.keys()]
     new_form = FormContainer(form.get_items())
     new_form.subs(subs_array)
-    if new_form.get_free_symbols() != [S.phi]:
+    if any(s != S.phi for s in new_form.get_free_symbols()):
         raise ValueError('Only one variable allowed in conversion from form to dat. Is subs_array correct?')
     iterable = {}
     for k,v in new_form.get_items():
-- 
2.43.0


From 05391338238602dba9b4563a029b017251e4ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 30/30] fix: as_pandas gives each polarization combination its
 own angles

---
 shgpy/core/data_handler.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 0cca650..6d1993e 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -334,22 +334,21 @@ class DataContainer:
             ``pandas.DataFrame``. Default is `'multi'`
 
         """
-        a1 = self.get_keys()
-        a2 = self.get_values(requested_angle_units)[0][0]
         if index == 'multi':
-            index = pd.MultiIndex.from_product(
-                (
-                    a1,
-                    a2,
-                ),
+            index = pd.MultiIndex.from_tuples(
+                [
+                    (k, x)
+                    for k, v in self.get_items(requested_angle_units)
+                    for x in v[0]
+                ],
                 names=('POLARIZATION', 'ANGLE'),
             )
-            raw_data_as_1d = np.array(
+            raw_data_as_1d = np.concatenate(
                 [
                     self.get_pc(k, requested_angle_units)[1].flatten()
                     for k in self.get_keys()
                 ],
-            ).flatten()
+            )
             df = pd.DataFrame(
                 raw_data_as_1d,
                 index=index,
-- 
2.43.0

