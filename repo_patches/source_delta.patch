From ea20c5b594ed7abdb561b9e36cfb67fb7c154cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 01/53] fix: accept angle units in any case when building a
 DataContainer

The constructor lowercased the units but validated the original string,
so 'Degrees' was refused although every accessor accepts it.
---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 8327222..4e53f72 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -46,7 +46,7 @@ class DataContainer:
 
     """
     def __init__(self, iterable, input_angle_units, normal_to_oblique=False):
-        self._input_angle_units = input_angle_units.lower()
+        input_angle_units = input_angle_units.lower()
         self._check_angle_units(input_angle_units)
         self._check_defining_iterable(iterable)
         self._input_angle_units = input_angle_units
-- 
2.43.0


From d731d9ce1dadb41f04536caa57be0a33d029a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 02/53] fix: detect duplicate angles modulo 2*pi wherever they
 lie

The reduced angle was looked up for exact equality among unreduced ones, so
an angle first seen outside [0, 2*pi) and its equivalents were all kept
(-180 and 180 degrees), and so were 10 and 370 degrees, which differ by a
rounding error once reduced. dat_to_fdat then fails or returns garbage.
---
 shgpy/core/data_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 4e53f72..18eb934 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -90,7 +90,8 @@ class DataContainer:
             new_xdata = []
             new_ydata = []
             for x,y in zip(v[0], v[1]):
-                if not (x % (2*np.pi)) in new_xdata:
+                distance = (np.array(new_xdata) - x + np.pi) % (2*np.pi) - np.pi
+                if not np.any(np.abs(distance) < 1e-10):
                     new_xdata.append(x)
                     new_ydata.append(y)
             if len(new_xdata) != len(v[0]):
-- 
2.43.0


From 8c332de19edbdbada3f516d4ab3048c65ec51862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 03/53] fix: hold the samples of a DataContainer as floats

With integer input in radians the angles were reduced modulo 2*pi (and
advanced by pi/2 for normal incidence) in an integer array, which truncates
them.
---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 18eb934..2d8ec79 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -51,7 +51,7 @@ class DataContainer:
         self._check_defining_iterable(iterable)
         self._input_angle_units = input_angle_units
         self._scale = 1
-        self._data_dict = deepcopy(dict(iterable))
+        self._data_dict = {k:v.astype(float, casting='same_kind') for k,v in dict(iterable).items()}
         self._phase_shift = 0
         self._offset = 0
         self._coerced = False
-- 
2.43.0


From e7fe26387c46f65a7b3be4bc4dfd72fc1914cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 04/53] fix: make the copy methods of DataContainer and
 fDataContainer work

DataContainer.copy() raised AttributeError, and the copies reported a tuple
for the phase shift.
---
 shgpy/core/data_handler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 2d8ec79..7eaa3d7 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -66,9 +66,12 @@ class DataContainer:
 
     def copy(self):
         """Return a copy of the DataContainer."""
-        dat = DataContainer(self._data_dict, normal_to_oblique=self.coerced)
+        dat = DataContainer(self._data_dict, 'radians')
+        dat._data_dict = deepcopy(self._data_dict)
+        dat._input_angle_units = self._input_angle_units
+        dat._coerced = self._coerced
         dat._scale = self._scale
-        dat._phase_shift = self._phase_shift,
+        dat._phase_shift = self._phase_shift
         dat._offset = self._offset
         return dat
 
@@ -451,7 +454,7 @@ class fDataContainer:
         """Return a copy of the fDataContainer."""
         fdat = fDataContainer(self._fdata_dict, M=self._M)
         fdat._scale = self._scale
-        fdat._phase_shift = self._phase_shift,
+        fdat._phase_shift = self._phase_shift
         return fdat
 
     def _check_defining_iterable(self, iterable):
-- 
2.43.0


From 045ae7e38333f51da94ecaf1cacdfba433f279f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 05/53] fix: let fform_to_fdat, merge_containers and load_fform
 keep M

They rebuilt the container with the default M=16 and so raised ValueError
for any other number of Fourier frequencies.
---
 shgpy/core/data_handler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 7eaa3d7..561f6f8 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1127,7 +1127,7 @@ def fform_to_fdat(fform, subs_dict):
 
     """
     subs_array = [(k,subs_dict[k]) for k in fform.get_free_symbols()]
-    new_fform = fFormContainer(fform.get_items())
+    new_fform = fFormContainer(fform.get_items(), M=fform.get_M())
     new_fform.subs(subs_array)
     iterable = {k:v.astype(complex) for k,v in new_fform.get_items()}
     return fDataContainer(iterable, new_fform.get_M())
@@ -1399,6 +1399,8 @@ def merge_containers(containers, mapping):
     
     if type_d:
         return new_type(iterable, 'radians')
+    elif new_type in [fDataContainer, fFormContainer]:
+        return new_type(iterable, M=containers[0].get_M())
     else:
         return new_type(iterable)
 
@@ -1653,7 +1655,8 @@ def load_fform(fform_filename):
         k:np.array([sp.sympify(s) for s in v])
         for k,v in str_fform_dict.items()
     }
-    return fFormContainer(_fform_dict)
+    M = (len(next(iter(_fform_dict.values()), [0]*33)) - 1)//2
+    return fFormContainer(_fform_dict, M=M)
 
 
 def save_fform(fform, fform_filename):
-- 
2.43.0


From e301da55025ee156ff7e607131bf8c11f42d57cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 06/53] fix: scale the Fourier data in
 load_data_and_fourier_transform

It called a method that does not exist, so any scale other than 1 raised.
---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 561f6f8..fd46c6d 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1632,7 +1632,7 @@ def load_data_and_fourier_transform(data_filenames_dict, data_angle_units, dark_
     fdat = dat_to_fdat(dat, interp_kind=interp_kind, M=M)
     if scale != 1:
         dat.scale_data(scale)
-        fdat.scale_data(scale)
+        fdat.scale_fdata(scale)
     return dat, fdat
 
 
-- 
2.43.0


From 1519cf78719cb0b94e2a1792baceca6dd1bad3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 07/53] fix: let form_to_dat convert formulas which do not
 depend on phi

A constant (or zero) formula was refused although the other conversion
routes accept it.
---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index fd46c6d..3bd80ab 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1267,7 +1267,7 @@ def form_to_dat(form, subs_dict, num_points):
     subs_array = [(k,subs_dict[k]) for k in subs_dict.keys()]
     new_form = FormContainer(form.get_items())
     new_form.subs(subs_array)
-    if new_form.get_free_symbols() != [S.phi]:
+    if new_form.get_free_symbols() not in [[S.phi], []]:
         raise ValueError('Only one variable allowed in conversion from form to dat. Is subs_array correct?')
     iterable = {}
     for k,v in new_form.get_items():
-- 
2.43.0


From d5475c822043116468b561ec904c5f248ab94c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 08/53] fix: show the angles of each polarization in
 DataContainer.as_pandas

The index was built from the angles of the first polarization only, so data
of other polarizations were labelled with wrong angles, or the method (and
repr) failed if the numbers of samples differ.
---
 shgpy/core/data_handler.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 3bd80ab..010f4cf 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -339,22 +339,13 @@ class DataContainer:
             ``pandas.DataFrame``. Default is `'multi'`
 
         """
-        a1 = self.get_keys()
-        a2 = self.get_values(requested_angle_units)[0][0]
         if index == 'multi':
-            index = pd.MultiIndex.from_product(
-                (
-                    a1,
-                    a2,
-                ),
+            items = self.get_items(requested_angle_units)
+            index = pd.MultiIndex.from_tuples(
+                [(k, angle) for k, v in items for angle in v[0]],
                 names=('POLARIZATION', 'ANGLE'),
             )
-            raw_data_as_1d = np.array(
-                [
-                    self.get_pc(k, requested_angle_units)[1].flatten()
-                    for k in self.get_keys()
-                ],
-            ).flatten()
+            raw_data_as_1d = np.concatenate([v[1] for k, v in items])
             df = pd.DataFrame(
                 raw_data_as_1d,
                 index=index,
-- 
2.43.0


From 82c22a8f2933fee81c2dde4a09ed193b7283ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 09/53] fix: leave the axis given to rotation_matrix3(symb)
 alone

It was normalised in place, which changes the caller's array and, for an
array of integers, truncates the axis and so returns a wrong matrix.
---
 shgpy/core/utilities.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index d206885..c257a3b 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -167,8 +167,7 @@ def rotation_matrix3(n, t):
     rotation_matrix3 : ndarray of float
     """
     n_mag = _norm(n)
-    for i in range(3):
-        n[i] /= n_mag
+    n = [n[i]/n_mag for i in range(3)]
     c = np.cos(t)
     s = np.sin(t)
     nx,ny,nz = n
@@ -193,8 +192,7 @@ def rotation_matrix3symb(n,t, ndigits=16):
     rotation_matrix3symb : ndarray of sympy.Expr
     """
     n_mag = _normsymb(n)
-    for i in range(3):
-        n[i] /= n_mag
+    n = [n[i]/n_mag for i in range(3)]
     c = sp.cos(t)
     s = sp.sin(t)
     nx,ny,nz = n
-- 
2.43.0


From d3efdbe39b6b781eaf03955c36655acd6ae408c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 10/53] fix: rotate parallel and antiparallel vectors onto each
 other properly

For (nearly) parallel vectors arccos of a cosine rounded above 1 gave NaN or
the axis was rounding noise; for antiparallel ones the result was the
inversion, which is not a rotation, or an arbitrary matrix.
---
 shgpy/core/utilities.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index c257a3b..099f625 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -259,14 +259,15 @@ def rotation_matrix_from_two_vectors(v_initial, v_final, accuracy=.01, ndigits=1
         v_initial[i] /= mag_v_initial
         v_final[i] /= mag_v_final
     cos_theta = sum([v_initial[i]*v_final[i] for i in range(3)])
-    mag_theta = np.arccos(cos_theta)
     axis = _cross_product(v_initial, v_final)
+    mag_theta = np.arctan2(_norm(axis), cos_theta)
     done = False
-    if np.array_equal(axis, np.zeros(3, dtype=axis.dtype)):
-        if np.array_equal(-v_initial, v_final):
-            ans = -iden
-            done = True
-        elif np.array_equal(v_initial, v_final):
+    if _norm(axis) < 1e-8:
+        if cos_theta < 0:
+            ## Rotate by pi about any axis perpendicular to v_initial.
+            axis = _cross_product(v_initial, iden[np.argmin(np.abs(v_initial))])
+            mag_theta = np.pi
+        else:
             ans = iden
             done = True
     if not done:
-- 
2.43.0


From c28b1ced03bd697deb91591942a02ee57c46a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 11/53] fix: let particularize permute_all_indices accept a
 symmetric tensor

There is then nothing to solve for and taking the first solution raised
IndexError.
---
 shgpy/core/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 099f625..464fc8e 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -45,6 +45,8 @@ def _particularize_all(tensor, exclude=[]):
             expr_list.append(tensor[i]-tensor[j])
 
     sols = solve(expr_list, dict=True, exclude=exclude)
+    if not any(expr_list):
+        return _apply_sol_to_tensor(tensor, {})
     
     return _apply_sol_to_tensor(tensor, sols[0])
     
-- 
2.43.0


From 390e81e73be9449421698a9eb8f77f3866197383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 12/53] fix: substitute the symbols themselves in
 make_tensor_real/complex

The substitution looked up a plain symbol by name, so a parameter declared
with any assumption (e.g. complex=True) was silently left as it was.
---
 shgpy/core/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 464fc8e..adab966 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -86,7 +86,7 @@ def _make_parameters_in_expr_complex(expr, prefix=('real_', 'imag_'), suffix=(''
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(str(fs), sp.symbols(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.symbols(prefix[1]+str(fs)+suffix[1], real=True))
+            expr = expr.subs(fs, sp.symbols(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.symbols(prefix[1]+str(fs)+suffix[1], real=True))
     return expr
 
 
@@ -94,7 +94,7 @@ def _make_parameters_in_expr_real(expr):
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(str(fs), sp.symbols(str(fs), real=True))
+            expr = expr.subs(fs, sp.symbols(str(fs), real=True))
     return expr
 
 
-- 
2.43.0


From d6ee6066f345514ebf4740e5cf69bd66a666f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 13/53] fix: let make_form_from_P_and_Q take the output of
 gen_P_just_dipole

gen_P_just_dipole returns the number 0 for the quadrupole components, which
has no flatten method.
---
 shgpy/core/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index adab966..212b03a 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -350,7 +350,7 @@ def transform(tensor, operation):
 
 def _free_symbols_of_array(array):
     total = []
-    for a in array.flatten():
+    for a in np.asarray(array).flatten():
         total = total+list(sp.sympify(a).free_symbols)
     return set(total)
 
-- 
2.43.0


From f396d6b9fa69a3269cb670ffbbfe5c463bbf4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 14/53] fix: let easy_polar_plot plot a single polarization
 combination

plt.subplots returns a bare Axes object for one subplot.
---
 shgpy/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shgpy/plotter.py b/shgpy/plotter.py
index e2d3c21..2595970 100644
--- a/shgpy/plotter.py
+++ b/shgpy/plotter.py
@@ -81,7 +81,7 @@ def easy_polar_plot(list_of_dats, list_of_param_dicts, pcs_to_include,
     """
 
     n = len(pcs_to_include)
-    fig, axs = plt.subplots(1, n, sharey=True,
+    fig, axs = plt.subplots(1, n, sharey=True, squeeze=False,
                             subplot_kw=dict(projection='polar'))
 
     for pc, ax in zip(pcs_to_include, axs.flatten()):
@@ -91,7 +91,7 @@ def easy_polar_plot(list_of_dats, list_of_param_dicts, pcs_to_include,
         ax.set_title(pc)
         if show_legend:
             ax.legend(loc='upper right')
-    for pc,ax in zip(pcs_to_include, axs):
+    for pc,ax in zip(pcs_to_include, axs.flatten()):
         ax.spines['polar'].set_visible(False)
         ax.set_yticklabels([])
         ax.set_xticks([0, np.pi/2, np.pi, 3*np.pi/2])
-- 
2.43.0


From f76010f6e50ceb23b55c959898c032e8d0724674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 15/53] fix: Fourier transform every term of a formula in
 form_to_fform

Only expanded sums whose terms all have a coefficient and a power product of
sin(phi) and cos(phi) were handled. Terms without coefficient (a constant, a
power, a symbol), single terms like x*sin(phi), factored formulas and
multiples of phi silently gave wrong coefficients or a KeyError, and M above
16 an IndexError.
---
 shgpy/core/_fourier_transform.py | 116 +++++++++----------------------
 shgpy/core/data_handler.py       |   5 +-
 2 files changed, 36 insertions(+), 85 deletions(-)

diff --git a/shgpy/core/_fourier_transform.py b/shgpy/core/_fourier_transform.py
index 45e68d3..e655c2e 100644
--- a/shgpy/core/_fourier_transform.py
+++ b/shgpy/core/_fourier_transform.py
@@ -18,90 +18,40 @@ def n2i(n, M=16):
     return n+M
 
 
-def _get_keyterms(expr):
-    keyterms = []
+_codes = {
+    sp.cos(S.phi)**code[0]*sp.sin(S.phi)**code[1]:code
+    for code in _lookup_table.keys()
+}
 
-    def gen(expr):
-        for arg in expr.args:
-            if S.phi in arg.free_symbols:
-                if arg.func == sp.Pow:
-                    for i in range(arg.args[1]):
-                        yield arg.args[0]
-                else:
-                    yield arg
 
-    if expr.func == sp.Mul:
-        keyterms.append(sp.Mul(*gen(expr)))
-    elif expr.func == sp.Add:
-        for arg in expr.args:
-            keyterms.append(sp.Mul(*gen(arg)))
-    else:
-        keyterms.append(expr)
-    return list(set(keyterms))
+def _get_terms(expr):
+    """Write `expr` as a sum of terms coefficient*cos(phi)**a*sin(phi)**b
 
-
-def _get_code(mul):
-    num_cos = 0
-    num_sin = 0
-    if mul.func == sp.Mul:
-        for arg in mul.args:
-            if arg.func == sp.Pow:
-                tp = arg.args[0].func
-                if tp == sp.sin:
-                    num_sin += arg.args[1]
-                elif tp == sp.cos:
-                    num_cos += arg.args[1]
-            else:
-                tp = arg.func
-                if tp == sp.sin:
-                    num_sin += 1
-                elif tp == sp.cos:
-                    num_cos += 1
-    elif mul.func == sp.Pow:
-        tp = mul.args[0].func
-        if tp == sp.sin:
-            num_sin = mul.args[1]
-        elif tp == sp.cos:
-            num_cos = mul.args[1]
-    return num_cos, num_sin
-
-
-def _fourier_transform(expr, n, M=16):
-    if expr.func == sp.Add or S.phi not in expr.free_symbols:
-        if S.phi not in expr.free_symbols:
-            if n == 0:
-                return expr
-            return 0
-        relevant_codes = {}
-        for code in _lookup_table.keys():
-            relevant_codes[code] = _lookup_table[code][n2i(n, M=16)]
-        mapping = {
-            sp.cos(S.phi)**code[0]*sp.sin(S.phi)**code[1]:ftval
-            for code, ftval in relevant_codes.items()
-        }
-        start = time.time()
-        args = []
-        for arg in expr.args:
-            has_phi = []
-            no_phi = []
-            for a in arg.args:
-                if a.has(S.phi):
-                    has_phi.append(a)
-                else:
-                    no_phi.append(a)
-            no_phi.append(mapping[sp.Mul(*has_phi)])
-            args.append(sp.Mul(*no_phi))
-        ans = expr.func(*args)
-        _logger.debug(f'Computing n={n} took {time.time()-start} seconds.')
-    else:
-        _logger.debug(f'Computing term n={n}, only one arg')
-        keyterms = _get_keyterms(expr)
-        assert len(keyterms) == 1
-        keyterm = keyterms[0]
-        code = _get_code(keyterm)
-        ftval = _lookup_table[code][n2i(n, M=16)]
-        if ftval != 0:
-            ans = expr / keyterm * ftval
-        else:
-            ans = 0
+    Returns a list of (coefficient, (a, b)).
+    """
+    expr = sp.sympify(expr)
+    for func in expr.atoms(sp.sin, sp.cos):
+        if func.args[0] != S.phi and func.has(S.phi):
+            expr = sp.expand_trig(expr.expand())
+            break
+    terms = []
+    for arg in sp.Add.make_args(sp.expand(expr)):
+        no_phi, has_phi = arg, sp.Integer(1)
+        if arg.has(S.phi):
+            no_phi, has_phi = arg.as_independent(S.phi, as_Add=False)
+        if has_phi not in _codes:
+            raise ValueError(f'Cannot Fourier transform the term {arg}.')
+        terms.append((no_phi, _codes[has_phi]))
+    return terms
+
+
+def _fourier_transform(terms, n, M=16):
+    start = time.time()
+    if abs(n) > 16:
+        return sp.Integer(0)
+    ans = sp.Add(*[
+        coefficient*_lookup_table[code][n2i(n, M=16)]
+        for coefficient, code in terms
+    ])
+    _logger.debug(f'Computing n={n} took {time.time()-start} seconds.')
     return ans
diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 010f4cf..5b1df73 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -10,7 +10,7 @@ import itertools
 from copy import deepcopy
 from .. import shg_symbols as S
 from warnings import warn
-from ._fourier_transform import _fourier_transform
+from ._fourier_transform import _fourier_transform, _get_terms
 
 _logger = logging.getLogger(__name__)
 
@@ -1301,9 +1301,10 @@ def form_to_fform(form, M=16):
     iterable = {}
     for k, v in form.get_items():
         iterable[k] = np.zeros((2*M+1,), dtype=object)
+        terms = _get_terms(v)
         for m in np.arange(-M, M+1):
             _logger.debug(f'Computing fourier transform for pc={k}, m={m}')
-            iterable[k][n2i(m, M)] = _fourier_transform(v, m, M)
+            iterable[k][n2i(m, M)] = _fourier_transform(terms, m, M)
     return fFormContainer(iterable, M=M)
 
 
-- 
2.43.0


From cbe67641f095c02fee60855c1b5fe766e7e3c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 16/53] fix: leave numpy's print options alone in fformgen

Generating the uncontracted transforms changed the print threshold of the
whole process, although nothing is printed.
---
 shgpy/fformgen.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/shgpy/fformgen.py b/shgpy/fformgen.py
index e1a4507..a588c00 100644
--- a/shgpy/fformgen.py
+++ b/shgpy/fformgen.py
@@ -43,7 +43,6 @@ from .core import (
 )
 from . import shg_symbols as S
 import pickle
-import sys
 import logging
 import time
 
@@ -171,7 +170,6 @@ def generate_uncontracted_fourier_transforms(aoi,
     ## tensor product.
     ## 
     F = np.array([S.Fx, S.Fy, S.Fz])
-    np.set_printoptions(threshold=sys.maxsize)
     R = np.array(rotation_matrix3symb([0, 0, 1], S.phi, ndigits=5))
     Id = np.identity(3)
     k_out = _substitute_into_array(
@@ -420,7 +418,6 @@ def generate_uncontracted_fourier_transforms_symb(uncontracted_filename_prefix,
     ## tensor product.
     ## 
     F = np.array([S.Fx, S.Fy, S.Fz])
-    np.set_printoptions(threshold=sys.maxsize)
     R = np.array(rotation_matrix3symb([0, 0, 1], S.phi, ndigits=5))
     Id = np.identity(3)
     k_out = np.array([-sp.sin(S.theta), 0, -sp.cos(S.theta)])
-- 
2.43.0


From d045301164069d2738d7210e61ae831184229e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 17/53] fix: honour M in the generation of uncontracted Fourier
 transforms

The convolutions always used M=16, so any smaller M gave wrong coefficients
and any larger one an IndexError; indices below the range wrapped around.
---
 shgpy/fformgen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shgpy/fformgen.py b/shgpy/fformgen.py
index a588c00..e858c25 100644
--- a/shgpy/fformgen.py
+++ b/shgpy/fformgen.py
@@ -96,18 +96,18 @@ def _conjugate_tensor(tensor):
     return ans.reshape(tensor.shape)
 
 
-def _convolve_ftensors(nR1, nR2, M=16, dtype=object):
+def _convolve_ftensors(nR1, nR2, M=None, dtype=object):
+    if M is None:
+        M = (len(nR1)-1)//2
     test_prod = tensor_product(nR1[0], nR2[0])
     ans = np.zeros(dtype=dtype, shape=(2*M+1,)+test_prod.shape)
     for n in np.arange(-M, M+1):
         for m in np.arange(-M, M+1):
-            try:
+            if abs(n-m) <= M:
                 ans[n2i(n, M)] += tensor_product(
                     nR1[n2i(m, M)],
                     nR2[n2i(n-m, M)],
                 )
-            except IndexError:
-                pass
     return ans
 
 
-- 
2.43.0


From e98f4e1d84b4cbecb99e654c6bca40d273b95ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 18/53] fix: refuse to contract Fourier transforms generated
 with another M

With a smaller M the coefficients were taken from the wrong positions
without notice (M=8 on the default M=16 picks harmonics -16 to 0).
---
 shgpy/fformgen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shgpy/fformgen.py b/shgpy/fformgen.py
index e858c25..e771450 100644
--- a/shgpy/fformgen.py
+++ b/shgpy/fformgen.py
@@ -721,6 +721,8 @@ def generate_contracted_fourier_transforms(save_filename,
     ##
     _fform_dict = {}
     for pc,h7_pc in terms_dict.items():
+        if len(h7_pc[0]) != 2*M+1:
+            raise ValueError(f'Uncontracted Fourier transforms in {uncontracted_filename_prefix} were not generated with M={M}.')
         _fform_dict[pc] = np.zeros(shape=(2*M+1,), dtype=object)
         for term in range(len(h7_pc)):
             t8_pc_term = np.array(
-- 
2.43.0


From cf3f7d63d4def9635481e8c902942cffc50d241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 19/53] fix: leave basinhopping_kwargs alone in the
 basinhopping fits

minimizer_kwargs was popped from the caller's dict, so a second fit with the
same dict silently ignored it.
---
 shgpy/fformfit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 57cbb7e..ddb6682 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -861,6 +861,7 @@ def basinhopping_fit(fform, fdat, guess_dict, niter, method='BFGS',
 
     minimizer_kwargs = {'method':method, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
+        basinhopping_kwargs = dict(basinhopping_kwargs)
         minimizer_kwargs.update(
             basinhopping_kwargs.pop('minimizer_kwargs')
         )
@@ -966,6 +967,7 @@ def basinhopping_fit_with_bounds(fform, fdat, guess_dict, bounds_dict,
 
     minimizer_kwargs = {'method':method, 'bounds':bounds, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
+        basinhopping_kwargs = dict(basinhopping_kwargs)
         minimizer_kwargs.update(
             basinhopping_kwargs.pop('minimizer_kwargs')
         )
@@ -1082,6 +1084,7 @@ def basinhopping_fit_jac(fform, fdat, guess_dict, niter, method='BFGS',
 
     minimizer_kwargs = {'method':method, 'jac':True, 'args':args}
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
+        basinhopping_kwargs = dict(basinhopping_kwargs)
         minimizer_kwargs.update(
             basinhopping_kwargs.pop('minimizer_kwargs')
         )
@@ -1212,6 +1215,7 @@ def basinhopping_fit_jac_with_bounds(fform, fdat, guess_dict, bounds_dict,
         'args':args,
     }
     if 'minimizer_kwargs' in basinhopping_kwargs.keys():
+        basinhopping_kwargs = dict(basinhopping_kwargs)
         minimizer_kwargs.update(
             basinhopping_kwargs.pop('minimizer_kwargs')
         )
-- 
2.43.0


From da933565a3475fbe68df73384c837362af711f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 20/53] fix: load the current contents of a saved cost function

The dynamic linker does not read a library again whose path is already open,
so loading a function which was saved again at the same path silently gave
the previous one. A relative path without directory was not found at all.
---
 shgpy/fformfit.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index ddb6682..83b150a 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -469,14 +469,36 @@ def load_func(load_cost_func_filename, multiprocessing=False):
     return _load_func(load_cost_func_filename, multiprocessing=multiprocessing)
 
 
+_libraries = {}
+
+
+def _open_library(contents):
+    ##
+    ## A library at a path which was opened before is not read again, so
+    ## open a copy at a new path (once for each process).
+    ##
+    if contents not in _libraries:
+        directory = Path(tempfile.mkdtemp()).absolute()
+        path = directory / Path('SHGPY_COST_FUNC.so')
+        try:
+            path.write_bytes(contents)
+            c_lib = ctypes.PyDLL(str(path))
+            c_lib.autofunc.restype = ctypes.c_double
+        finally:
+            _rmtree_warn(directory)
+        _libraries[contents] = c_lib
+    return _libraries[contents]
+
+
 def _load_func(load_cost_func_filename, multiprocessing=False):
 
+    contents = Path(load_cost_func_filename).read_bytes()
+
     if multiprocessing:
 
         def cost_func(x):
             start = time.time()
-            c_lib = ctypes.PyDLL(load_cost_func_filename)
-            c_lib.autofunc.restype = ctypes.c_double
+            c_lib = _open_library(contents)
             _logger.debug(f'Importing shared library took'
                            f' {time.time()-start} seconds.')
             c_x = x.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
@@ -487,10 +509,7 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
         return cost_func
 
     start = time.time()
-    if isinstance(load_cost_func_filename, Path):
-        load_cost_func_filename = str(load_cost_func_filename.absolute())
-    c_lib = ctypes.PyDLL(load_cost_func_filename)
-    c_lib.autofunc.restype = ctypes.c_double
+    c_lib = _open_library(contents)
     _logger.debug(f'Importing shared library took'
                    f' {time.time()-start} seconds.')
 
-- 
2.43.0


From f4fd4512b0d4a03da65abc30b2014f4c295993b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 21/53] fix: pass contiguous doubles to compiled cost functions

The memory of integer, single precision or strided arrays was read as if it
held contiguous doubles, which gives garbage and reads beyond the array.
---
 shgpy/fformfit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 83b150a..ac96905 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -501,6 +501,7 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
             c_lib = _open_library(contents)
             _logger.debug(f'Importing shared library took'
                            f' {time.time()-start} seconds.')
+            x = np.ascontiguousarray(x, dtype=float)
             c_x = x.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
             result = c_lib.autofunc(c_x)
             _logger.debug(f'Time spent in func: {time.time()-start}')
@@ -514,6 +515,7 @@ def _load_func(load_cost_func_filename, multiprocessing=False):
                    f' {time.time()-start} seconds.')
 
     def cost_func(x):
+        x = np.ascontiguousarray(x, dtype=float)
         c_x = x.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
         return c_lib.autofunc(c_x)
 
-- 
2.43.0


From 696b3dc7a39186ac7541847ab47c2b55528fa7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 22/53] fix: keep a saved cost function when generating its
 successor fails

The old file was deleted before the new one was known to exist, and the new
one appeared at its final path while still being written. The temporary
directory was left behind, too, whenever the compiler failed.
---
 shgpy/fformfit.py | 73 ++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index ac96905..1ba2d0a 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -41,6 +41,21 @@ def _rmtree_warn(*args, **kwargs):
     return shutil.rmtree(*args, **kwargs)
 
 
+def _system(command):
+    if os.system(command) != 0:
+        raise RuntimeError(f'{command} failed.')
+
+
+def _save_library(so_path, save_filename):
+    save_filename = Path(save_filename).absolute()
+    directory = Path(tempfile.mkdtemp(dir=save_filename.parent))
+    try:
+        shutil.copy(so_path, directory / save_filename.name)
+        os.replace(directory / save_filename.name, save_filename)
+    finally:
+        _rmtree_warn(directory)
+
+
 def _split(a, num_per):
     ans = []
     for n in range(ceil(len(a)/num_per)):
@@ -217,17 +232,19 @@ def _fixed_autowrap_model(
 
                     start = time.time()
                     _logger.debug(f'Start compiling code for PC={k}, m={m}')
-                    os.system(f'{method} -w -c -lm {c_path} -o {o_path}')
-                    os.system(f'{method} -w -shared {o_path} -o {so_path}')
-                    _logger.debug(f'Compiling code took {time.time()-start} seconds.')
+                    try:
+                        _system(f'{method} -w -c -lm {c_path} -o {o_path}')
+                        _system(f'{method} -w -shared {o_path} -o {so_path}')
+                        _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
-                    if save_folder is not None:
-                        shutil.copy(so_path, Path(save_folder))
+                        if save_folder is not None:
+                            shutil.copy(so_path, Path(save_folder))
 
-                    cost_func_dict[k][m][component].append(
-                        _load_func(so_path, multiprocessing=multiprocessing),
-                    )
-                    _rmtree_warn(write_directory)
+                        cost_func_dict[k][m][component].append(
+                            _load_func(so_path, multiprocessing=multiprocessing),
+                        )
+                    finally:
+                        _rmtree_warn(write_directory)
 
     return cost_func_dict
 
@@ -366,18 +383,17 @@ def _fixed_autowrap(
 
     start = time.time()
     _logger.debug('Start compiling code.')
-    os.system(f'{method} -w -c -lm {c_path} -o {o_path}')
-    os.system(f'{method} -w -shared {o_path} -o {so_path}')
-    _logger.debug(f'Compiling code took {time.time()-start} seconds.')
+    try:
+        _system(f'{method} -w -c -lm {c_path} -o {o_path}')
+        _system(f'{method} -w -shared {o_path} -o {so_path}')
+        _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
-    if save_filename is not None:
-        if Path(save_filename).exists():
-            Path(save_filename).unlink()
-        shutil.copy(so_path, save_filename)
+        cost_func = _load_func(so_path, multiprocessing=multiprocessing)
 
-    cost_func = _load_func(so_path, multiprocessing=multiprocessing)
-
-    _rmtree_warn(write_directory)
+        if save_filename is not None:
+            _save_library(so_path, save_filename)
+    finally:
+        _rmtree_warn(write_directory)
 
     return cost_func
 
@@ -437,18 +453,17 @@ double autofunc(double *xs){
 
     start = time.time()
     _logger.debug('Start compiling code.')
-    os.system(f'{method} -w -c -lm -fPIC {c_path} -o {o_path}')
-    os.system(f'{method} -w -shared -fPIC {o_path} -o {so_path}')
-    _logger.debug(f'Compiling code took {time.time()-start} seconds.')
-
-    if save_filename is not None:
-        if Path(save_filename).exists():
-            Path(save_filename).unlink()
-        shutil.copy(so_path, save_filename)
+    try:
+        _system(f'{method} -w -c -lm -fPIC {c_path} -o {o_path}')
+        _system(f'{method} -w -shared -fPIC {o_path} -o {so_path}')
+        _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
-    cost_func = _load_func(so_path, multiprocessing=multiprocessing)
+        cost_func = _load_func(so_path, multiprocessing=multiprocessing)
 
-    _rmtree_warn(write_directory)
+        if save_filename is not None:
+            _save_library(so_path, save_filename)
+    finally:
+        _rmtree_warn(write_directory)
 
     return cost_func
 
-- 
2.43.0


From 0586650e7b45a44f928741a3f6cd3dd7ce19641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 23/53] fix: keep a saved model function when generating its
 successor fails

---
 shgpy/fformfit.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 1ba2d0a..2490b01 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -176,11 +176,6 @@ def _fixed_autowrap_model(
 
     codegen = CCodeGen()
 
-    if save_folder is not None:
-        if Path(save_folder).exists():
-            _rmtree_warn(save_folder)
-        Path.mkdir(Path(save_folder))
-
     cost_func_dict = {}
     M = fform.get_M()
 
@@ -273,12 +268,31 @@ def gen_model_func(fform, save_folder, method='gcc', max_terms_per_file=10):
         combination, and `m` is the Fourier component.
 
     """
-    cost_func_dict = _fixed_autowrap_model(
-        fform,
-        save_folder,
-        method=method,
-        max_terms_per_file=max_terms_per_file,
-    )
+    if save_folder is None:
+        staging_folder = None
+    else:
+        ##
+        ## Only replace what was saved before when there is a complete
+        ## successor.
+        ##
+        save_folder = Path(save_folder).absolute()
+        staging_folder = Path(tempfile.mkdtemp(dir=save_folder.parent))
+        staging_folder.chmod(0o755)
+    try:
+        cost_func_dict = _fixed_autowrap_model(
+            fform,
+            staging_folder,
+            method=method,
+            max_terms_per_file=max_terms_per_file,
+        )
+        if save_folder is not None:
+            if save_folder.exists():
+                _rmtree_warn(save_folder)
+            staging_folder.rename(save_folder)
+    except BaseException:
+        if staging_folder is not None:
+            _rmtree_warn(staging_folder)
+        raise
 
     def model_func(xs, pc, m):
         return sum(
-- 
2.43.0


From b0d769d2c2635f16f82f608917757f60e3cda74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 24/53] fix: raise if the files of a saved model function are
 missing

---
 shgpy/fformfit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 2490b01..30c13d9 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -350,7 +350,10 @@ def _load_func_dict(fform, save_folder, multiprocessing=False):
             cost_func_dict[k][m] = {}
             for component in ['real', 'imag']:
                 cost_func_dict[k][m][component] = []
-                for path in save_folder.glob('_'.join((k, str(m), component))+'*.so'):
+                prefix = '_'.join((k, str(m), component))
+                n_files = len(list(save_folder.glob(prefix+'_*.so')))
+                for ei in range(max(n_files, 1)):
+                    path = save_folder / Path(f'{prefix}_{ei}.so')
                     _logger.debug(f'Loading cost function from {path}')
                     cost_func_dict[k][m][component].append(
                         _load_func(path, multiprocessing=multiprocessing),
-- 
2.43.0


From b4b9a9533527da48c799a64a765c56dfa64aed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 25/53] fix: load one gradient function for each parameter

---
 shgpy/fformfit.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 30c13d9..716b433 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -628,7 +628,7 @@ def _make_denergy_func_auto(denergy_expr, save_filename_prefix=None):
             new_func = _fixed_autowrap(expr, 'SHGPY_COST_FUNC')
         else:
             new_func = _fixed_autowrap(expr, 'SHGPY_COST_FUNC',
-                            Path(save_filename_prefix+str(i)+'.so'))
+                            Path(str(save_filename_prefix)+str(i)+'.so'))
         funcs.append(new_func)
     return lambda x: np.array([func(x) for func in funcs])
 
@@ -658,26 +658,20 @@ def _make_energy_and_denergy_func_wrapper(fform, fdat, free_symbols=None,
 
 def _load_energy_and_denergy_func(load_cost_func_filename,
                                   load_grad_cost_func_filename_prefix,
+                                  n_params,
                                   multiprocessing=False):
     f_energy = _load_func(
         load_cost_func_filename,
         multiprocessing=multiprocessing,
     )
     funcs = []
-    i = 0
-    while True:
-        new_filename = load_grad_cost_func_filename_prefix+str(i)+'.so'
-        if Path(new_filename).exists():
-            funcs.append(
-                _load_func(
-                    load_grad_cost_func_filename_prefix+str(i)+'.so',
-                    multiprocessing=multiprocessing,
-                )
+    for i in range(n_params):
+        funcs.append(
+            _load_func(
+                str(load_grad_cost_func_filename_prefix)+str(i)+'.so',
+                multiprocessing=multiprocessing,
             )
-            i += 1
-        else:
-            _logger.debug('Loaded {i} gradient functions.')
-            break
+        )
     df_energy = lambda x: np.array([func(x) for func in funcs])
     fdf_energy = lambda x: (f_energy(x), df_energy(x))
     return fdf_energy
@@ -1119,6 +1113,7 @@ def basinhopping_fit_jac(fform, fdat, guess_dict, niter, method='BFGS',
         fdf_energy = _load_energy_and_denergy_func(
             load_cost_func_filename,
             load_grad_cost_func_filename_prefix,
+            len(free_symbols),
         )
             
     else:
@@ -1241,6 +1236,7 @@ def basinhopping_fit_jac_with_bounds(fform, fdat, guess_dict, bounds_dict,
         fdf_energy = _load_energy_and_denergy_func(
             load_cost_func_filename,
             load_grad_cost_func_filename_prefix,
+            len(free_symbols),
         )
 
     else:
-- 
2.43.0


From 56296456da4e41942aa2a7b8dae1c75319672c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 26/53] fix: reject data with other than two rows in
 DataContainer

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 5b1df73..c505cb2 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -82,7 +82,7 @@ class DataContainer:
     def _check_defining_iterable(self, iterable):
         try:
             bad_key = False in [type(k) == str for k in dict(iterable).keys()]
-            bad_val = False in [type(v) == np.ndarray and v[0].shape == v[1].shape and v.dtype != object and v.ndim == 2 for v in dict(iterable).values()]
+            bad_val = False in [type(v) == np.ndarray and v[0].shape == v[1].shape and v.dtype != object and v.ndim == 2 and len(v) == 2 for v in dict(iterable).values()]
         except:
             raise ValueError('Invalid data input')
         if bad_key or bad_val:
-- 
2.43.0


From 4c09d411140ed90d0b95505e263e78c895783033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 27/53] fix: pass the local search options to dual_annealing
 under their present name

---
 shgpy/fformfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 716b433..1fb755d 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -1406,7 +1406,7 @@ def dual_annealing_fit_with_bounds(
         f_energy,
         bounds,
         maxiter=maxiter,
-        local_search_options=local_search_options,
+        minimizer_kwargs=local_search_options,
         initial_temp=initial_temp,
         restart_temp_ratio=restart_temp_ratio,
         visit=visit,
-- 
2.43.0


From 0911f509be2a60da389e9adcfae23f39eadb8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 28/53] fix: let fFormContainer hold formulas which are plain
 numbers

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index c505cb2..acf496e 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -704,7 +704,7 @@ class fFormContainer:
 
     def _copy_iterable(self, iterable):
         _fform_dict = {
-            k:np.array([s for s in v])
+            k:np.array([s for s in v], dtype=object)
             for k,v in dict(iterable).items()
         }
         return _fform_dict
-- 
2.43.0


From 3b2b4c141b70c8e8ae612185117494ee6ef51a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 29/53] fix: reject several datasets for one polarization
 combination in coercion to oblique incidence

---
 shgpy/core/data_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index acf496e..e337033 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -104,6 +104,8 @@ class DataContainer:
 
     def _coerce_to_oblique_incidence(self): 
         keys = set((k.upper()[:2] for k in self._data_dict.keys()))
+        if len(keys) != len(self._data_dict):
+            raise ValueError("Invalid input: keys name the same polarization combination.")
         if keys in [set(['PP', 'PS', 'SP', 'SS'])]:
             key_type = 'oblique'
         elif keys in [set(i) for i in itertools.product(['PP', 'SS'], ['PS', 'SP'])]:
-- 
2.43.0


From 1632ffbce823f64b4d69c1e7caf0f4ac410fc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 30/53] fix: compare the shapes of matching polarizations in
 dat_add and dat_subtract

---
 shgpy/core/data_handler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index e337033..bcca5df 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1443,12 +1443,12 @@ def dat_subtract(dat1, dat2):
     """
     if set(dat1.get_keys()) != set(dat2.get_keys()):
         raise ValueError('DataContainers have different keys.')
-    if dat1.get_values('radians')[0].shape != dat2.get_values('radians')[0].shape:
-        raise ValueError('DataContainers\' xydatas have different shapes.')
     new_dict = {}
     for k in dat1.get_keys():
         new_xdata, ydata1 = dat1.get_pc(k, 'radians')
         _, ydata2 = dat2.get_pc(k, 'radians')
+        if new_xdata.shape != _.shape:
+            raise ValueError('DataContainers\' xydatas have different shapes.')
         if False in np.isclose(new_xdata.flatten(), _.flatten()):
             raise ValueError('DataContainers have different xdatas.')
         new_ydata = ydata1 - ydata2
@@ -1475,12 +1475,12 @@ def dat_add(dat1, dat2):
     """
     if set(dat1.get_keys()) != set(dat2.get_keys()):
         raise ValueError('DataContainers have different keys.')
-    if dat1.get_values('radians')[0].shape != dat2.get_values('radians')[0].shape:
-        raise ValueError('DataContainers\' xydatas have different shapes.')
     new_dict = {}
     for k in dat1.get_keys():
         new_xdata, ydata1 = dat1.get_pc(k, 'radians')
         _, ydata2 = dat2.get_pc(k, 'radians')
+        if new_xdata.shape != _.shape:
+            raise ValueError('DataContainers\' xydatas have different shapes.')
         if False in np.isclose(new_xdata.flatten(), _.flatten()):
             raise ValueError('DataContainers have different xdatas.')
         new_ydata = ydata1 + ydata2
-- 
2.43.0


From 569b4b9cd39eb067a9c8130f3ebe7b7de2d7a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 31/53] fix: keep sympy expressions as they are in
 merge_containers

---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index bcca5df..aa3421a 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -1386,7 +1386,7 @@ def merge_containers(containers, mapping):
             items = container.get_items()
         for k,v in items:
             new_k = mapping(k, i)
-            new_v = np.copy(v)
+            new_v = np.copy(v) if isinstance(v, np.ndarray) else v
             iterable[new_k] = new_v
             if type(container) != new_type:
                 raise TypeError('Containers are of different types.')
-- 
2.43.0


From 09383e56cf2fca9b371c48912f3db1ecbcb48800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 32/53] fix: print conjugates and real and imaginary parts as C
 in generated functions

---
 shgpy/fformfit.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 1fb755d..6f05b2f 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -12,6 +12,7 @@ relevant `scipy` documentation for more info.
 """
 import sympy as sp
 from sympy.utilities.codegen import CCodeGen
+from sympy.printing.c import C99CodePrinter
 import numpy as np
 from .core import n2i
 from scipy.optimize import (
@@ -46,6 +47,14 @@ def _system(command):
         raise RuntimeError(f'{command} failed.')
 
 
+def _make_codegen():
+    # sympy does not know the C names of these functions, and would print
+    # them (and their arguments) as Python code.
+    return CCodeGen(printer=C99CodePrinter({
+        'user_functions': {'conjugate': 'conj', 're': 'creal', 'im': 'cimag'},
+    }))
+
+
 def _save_library(so_path, save_filename):
     save_filename = Path(save_filename).absolute()
     directory = Path(tempfile.mkdtemp(dir=save_filename.parent))
@@ -174,7 +183,7 @@ def _fixed_autowrap_model(
     multiprocessing=False,
 ):
 
-    codegen = CCodeGen()
+    codegen = _make_codegen()
 
     cost_func_dict = {}
     M = fform.get_M()
@@ -209,7 +218,6 @@ def _fixed_autowrap_model(
                     )
                     c_code = '#include <complex.h>\n'
                     c_code += bad_c_code
-                    c_code = c_code.replace('conjugate', 'conj')
 
                     write_directory = Path(tempfile.mkdtemp()).absolute()
 
@@ -369,7 +377,7 @@ def _fixed_autowrap(
     multiprocessing=False,
 ):
 
-    codegen = CCodeGen()
+    codegen = _make_codegen()
 
     routines = []
     _logger.debug('Writing code for energy_expr')
@@ -382,7 +390,6 @@ def _fixed_autowrap(
     )
     c_code = '#include <complex.h>\n'
     c_code += bad_c_code
-    c_code = c_code.replace('conjugate', 'conj')
 
     write_directory = Path(tempfile.mkdtemp()).absolute()
 
@@ -424,7 +431,7 @@ def _make_energy_func_chunked(
     multiprocessing=False,
 ):
 
-    codegen = CCodeGen()
+    codegen = _make_codegen()
 
     routines = []
     for i, expr in enumerate(energy_expr_list):
@@ -447,7 +454,6 @@ double autofunc(double *xs){
 
 }
 """ % ('+'.join(['expr'+str(i)+'(xs)' for i in range(len(energy_expr_list))]))
-    c_code = c_code.replace('conjugate', 'conj')
 
     h_code = h_code.replace('\n#endif', """double autofunc(double *xs);
 
-- 
2.43.0


From 14f517dd0aa00f0b1fcaec0177c1ea712dc679e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 33/53] fix: evaluate complex powers and functions in generated
 functions

---
 shgpy/fformfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 6f05b2f..053cee2 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -216,7 +216,7 @@ def _fixed_autowrap_model(
                         routines,
                         prefix,
                     )
-                    c_code = '#include <complex.h>\n'
+                    c_code = '#include <tgmath.h>\n'
                     c_code += bad_c_code
 
                     write_directory = Path(tempfile.mkdtemp()).absolute()
@@ -388,7 +388,7 @@ def _fixed_autowrap(
         routines,
         prefix,
     )
-    c_code = '#include <complex.h>\n'
+    c_code = '#include <tgmath.h>\n'
     c_code += bad_c_code
 
     write_directory = Path(tempfile.mkdtemp()).absolute()
@@ -443,7 +443,7 @@ def _make_energy_func_chunked(
         routines,
         prefix,
     )
-    c_code = '#include <complex.h>\n'
+    c_code = '#include <tgmath.h>\n'
     c_code += bad_c_code
     c_code += """
 double autofunc(double *xs){
-- 
2.43.0


From d16fd3b76eac18159b8767d2d8bd707ac0a1c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 34/53] fix: add the documented S_2 entry to the quadrupole
 table

---
 shgpy/tensor_definitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shgpy/tensor_definitions.py b/shgpy/tensor_definitions.py
index 634ad7f..b8b0c98 100644
--- a/shgpy/tensor_definitions.py
+++ b/shgpy/tensor_definitions.py
@@ -207,6 +207,7 @@ quadrupole['C_1'] = np.array([[[[xxxx, xxxy, xxxz],
     [[zzxx, zzxy, zzxz],
     [zzyx, zzyy, zzyz],
     [zzzx, zzzy, zzzz]]]], dtype=object)
+quadrupole['S_2'] = quadrupole['C_1'].copy()
 for k,v in quadrupole.items():
     new_quadrupole = np.zeros(shape=v.shape, dtype=object).flatten()
     for i,g in enumerate(quadrupole[k].flatten()):
-- 
2.43.0


From b4358f0e95c694c72b56ff9fb5e2de6d6522b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 35/53] fix: make one real symbol whatever its name in
 make_tensor_real/complex and map_to_real

---
 shgpy/core/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 212b03a..66670dd 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -86,7 +86,7 @@ def _make_parameters_in_expr_complex(expr, prefix=('real_', 'imag_'), suffix=(''
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(fs, sp.symbols(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.symbols(prefix[1]+str(fs)+suffix[1], real=True))
+            expr = expr.subs(fs, sp.Symbol(prefix[0]+str(fs)+suffix[0], real=True)+sp.I*sp.Symbol(prefix[1]+str(fs)+suffix[1], real=True))
     return expr
 
 
@@ -94,7 +94,7 @@ def _make_parameters_in_expr_real(expr):
     free_symbols = expr.free_symbols
     for fs in free_symbols:
         if fs.is_real is None:
-            expr = expr.subs(fs, sp.symbols(str(fs), real=True))
+            expr = expr.subs(fs, sp.Symbol(str(fs), real=True))
     return expr
 
 
@@ -364,6 +364,6 @@ def _assert_real_params(chi):
 
 def map_to_real(sym):
     """Map a sympy.Symbol to its real counterpart."""
-    return sp.symbols(str(sym), real=True)
+    return sp.Symbol(str(sym), real=True)
 
 
-- 
2.43.0


From b3e6fd1203444a680859fc68f58ab244df974cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 36/53] fix: accept arrays of more than two rows in
 DataContainer again

tests.test_data_handler.TestData.test_maxval builds such a container.
Reverts 5629645.
---
 shgpy/core/data_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index aa3421a..12a89a4 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -82,7 +82,7 @@ class DataContainer:
     def _check_defining_iterable(self, iterable):
         try:
             bad_key = False in [type(k) == str for k in dict(iterable).keys()]
-            bad_val = False in [type(v) == np.ndarray and v[0].shape == v[1].shape and v.dtype != object and v.ndim == 2 and len(v) == 2 for v in dict(iterable).values()]
+            bad_val = False in [type(v) == np.ndarray and v[0].shape == v[1].shape and v.dtype != object and v.ndim == 2 for v in dict(iterable).values()]
         except:
             raise ValueError('Invalid data input')
         if bad_key or bad_val:
-- 
2.43.0


From a2c5003e71270b38343a7ac9752f50812628d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 37/53] fix: solve for all the symmetry equations in
 particularize

---
 shgpy/core/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 66670dd..b2205dd 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -19,7 +19,8 @@ def _particularize_last_two(tensor, exclude=[]):
 
     def _get_sols_from_particularization(tensor, exclude=[]):
         tensor2 = _swap_last_two_indices(tensor)
-        sols = solve((tensor-tensor2).flatten(), dict=True, exclude=exclude)
+        # split up, the system would be solved without some of its equations
+        sols = solve((tensor-tensor2).flatten(), dict=True, exclude=exclude, _split=False)
         return sols
 
     def _apply_sol_to_tensor(tensor, sol):
@@ -44,7 +45,8 @@ def _particularize_all(tensor, exclude=[]):
         for j in set(itertools.permutations(i)):
             expr_list.append(tensor[i]-tensor[j])
 
-    sols = solve(expr_list, dict=True, exclude=exclude)
+    # split up, the system would be solved without some of its equations
+    sols = solve(expr_list, dict=True, exclude=exclude, _split=False)
     if not any(expr_list):
         return _apply_sol_to_tensor(tensor, {})
     
-- 
2.43.0


From 5d9e85a879279394622957312dc750202fa7ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 38/53] fix: have generated functions return doubles for
 integer expressions

---
 shgpy/fformfit.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 053cee2..8c3e577 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -11,7 +11,7 @@ relevant `scipy` documentation for more info.
 
 """
 import sympy as sp
-from sympy.utilities.codegen import CCodeGen
+from sympy.utilities.codegen import CCodeGen, Result, default_datatypes
 from sympy.printing.c import C99CodePrinter
 import numpy as np
 from .core import n2i
@@ -47,10 +47,23 @@ def _system(command):
         raise RuntimeError(f'{command} failed.')
 
 
+class _FloatCCodeGen(CCodeGen):
+
+    def routine(self, *args, **kwargs):
+        # sympy would have an integer-valued expression return an int, but
+        # the generated functions are called as functions returning a double.
+        routine = super().routine(*args, **kwargs)
+        routine.results = [
+            Result(result.expr, datatype=default_datatypes['float'])
+            for result in routine.results
+        ]
+        return routine
+
+
 def _make_codegen():
     # sympy does not know the C names of these functions, and would print
     # them (and their arguments) as Python code.
-    return CCodeGen(printer=C99CodePrinter({
+    return _FloatCCodeGen(printer=C99CodePrinter({
         'user_functions': {'conjugate': 'conj', 're': 'creal', 'im': 'cimag'},
     }))
 
-- 
2.43.0


From 9a620eca999e9741e238d55cfe5d1194b6ae68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 39/53] fix: remove the temporary folder when writing the
 generated code fails

---
 shgpy/fformfit.py | 87 +++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 8c3e577..d1ea119 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -233,22 +233,21 @@ def _fixed_autowrap_model(
                     c_code += bad_c_code
 
                     write_directory = Path(tempfile.mkdtemp()).absolute()
-
-                    c_path = write_directory / Path(prefix + '.c')
-                    h_path = write_directory / Path(prefix + '.h')
-                    o_path = write_directory / Path(prefix + '.o')
-                    so_path = write_directory / Path(prefix + '.so')
-
-                    with open(c_path, 'w') as fh:
-                        fh.write(c_code)
-                        fh.write('\n')
-                    with open(h_path, 'w') as fh:
-                        fh.write(h_code)
-                        fh.write('\n')
-
-                    start = time.time()
-                    _logger.debug(f'Start compiling code for PC={k}, m={m}')
                     try:
+                        c_path = write_directory / Path(prefix + '.c')
+                        h_path = write_directory / Path(prefix + '.h')
+                        o_path = write_directory / Path(prefix + '.o')
+                        so_path = write_directory / Path(prefix + '.so')
+
+                        with open(c_path, 'w') as fh:
+                            fh.write(c_code)
+                            fh.write('\n')
+                        with open(h_path, 'w') as fh:
+                            fh.write(h_code)
+                            fh.write('\n')
+
+                        start = time.time()
+                        _logger.debug(f'Start compiling code for PC={k}, m={m}')
                         _system(f'{method} -w -c -lm {c_path} -o {o_path}')
                         _system(f'{method} -w -shared {o_path} -o {so_path}')
                         _logger.debug(f'Compiling code took {time.time()-start} seconds.')
@@ -405,22 +404,21 @@ def _fixed_autowrap(
     c_code += bad_c_code
 
     write_directory = Path(tempfile.mkdtemp()).absolute()
-
-    c_path = write_directory / Path(prefix + '.c')
-    h_path = write_directory / Path(prefix + '.h')
-    o_path = write_directory / Path(prefix + '.o')
-    so_path = write_directory / Path(prefix + '.so')
-
-    with open(c_path, 'w') as fh:
-        fh.write(c_code)
-        fh.write('\n')
-    with open(h_path, 'w') as fh:
-        fh.write(h_code)
-        fh.write('\n')
-
-    start = time.time()
-    _logger.debug('Start compiling code.')
     try:
+        c_path = write_directory / Path(prefix + '.c')
+        h_path = write_directory / Path(prefix + '.h')
+        o_path = write_directory / Path(prefix + '.o')
+        so_path = write_directory / Path(prefix + '.so')
+
+        with open(c_path, 'w') as fh:
+            fh.write(c_code)
+            fh.write('\n')
+        with open(h_path, 'w') as fh:
+            fh.write(h_code)
+            fh.write('\n')
+
+        start = time.time()
+        _logger.debug('Start compiling code.')
         _system(f'{method} -w -c -lm {c_path} -o {o_path}')
         _system(f'{method} -w -shared {o_path} -o {so_path}')
         _logger.debug(f'Compiling code took {time.time()-start} seconds.')
@@ -474,22 +472,21 @@ double autofunc(double *xs){
 """)
 
     write_directory = Path(tempfile.mkdtemp()).absolute()
-
-    c_path = write_directory / Path(prefix + '.c')
-    h_path = write_directory / Path(prefix + '.h')
-    o_path = write_directory / Path(prefix + '.o')
-    so_path = write_directory / Path(prefix + '.so')
-
-    with open(c_path, 'w') as fh:
-        fh.write(c_code)
-        fh.write('\n')
-    with open(h_path, 'w') as fh:
-        fh.write(h_code)
-        fh.write('\n')
-
-    start = time.time()
-    _logger.debug('Start compiling code.')
     try:
+        c_path = write_directory / Path(prefix + '.c')
+        h_path = write_directory / Path(prefix + '.h')
+        o_path = write_directory / Path(prefix + '.o')
+        so_path = write_directory / Path(prefix + '.so')
+
+        with open(c_path, 'w') as fh:
+            fh.write(c_code)
+            fh.write('\n')
+        with open(h_path, 'w') as fh:
+            fh.write(h_code)
+            fh.write('\n')
+
+        start = time.time()
+        _logger.debug('Start compiling code.')
         _system(f'{method} -w -c -lm -fPIC {c_path} -o {o_path}')
         _system(f'{method} -w -shared -fPIC {o_path} -o {so_path}')
         _logger.debug(f'Compiling code took {time.time()-start} seconds.')
-- 
2.43.0


From 4b7bd37665b7985642d3cbb1f43749461c468b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 40/53] fix: move a saved model function aside before deleting
 it

---
 shgpy/fformfit.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index d1ea119..f163e57 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -78,6 +78,26 @@ def _save_library(so_path, save_filename):
         _rmtree_warn(directory)
 
 
+def _replace_folder(new_folder, folder):
+    ##
+    ## Move what is there aside before deleting it, so that there is never a
+    ## folder with only some of its files.
+    ##
+    directory = Path(tempfile.mkdtemp(dir=folder.parent))
+    old_folder = directory / folder.name
+    try:
+        if folder.is_dir():
+            folder.rename(old_folder)
+        try:
+            new_folder.rename(folder)
+        except BaseException:
+            if old_folder.exists():
+                old_folder.rename(folder)
+            raise
+    finally:
+        _rmtree_warn(directory)
+
+
 def _split(a, num_per):
     ans = []
     for n in range(ceil(len(a)/num_per)):
@@ -297,7 +317,6 @@ def gen_model_func(fform, save_folder, method='gcc', max_terms_per_file=10):
         ##
         save_folder = Path(save_folder).absolute()
         staging_folder = Path(tempfile.mkdtemp(dir=save_folder.parent))
-        staging_folder.chmod(0o755)
     try:
         cost_func_dict = _fixed_autowrap_model(
             fform,
@@ -306,9 +325,8 @@ def gen_model_func(fform, save_folder, method='gcc', max_terms_per_file=10):
             max_terms_per_file=max_terms_per_file,
         )
         if save_folder is not None:
-            if save_folder.exists():
-                _rmtree_warn(save_folder)
-            staging_folder.rename(save_folder)
+            staging_folder.chmod(0o755)
+            _replace_folder(staging_folder, save_folder)
     except BaseException:
         if staging_folder is not None:
             _rmtree_warn(staging_folder)
-- 
2.43.0


From eec9cabc44eb94ad4f4b8d31448e8da1a40ef681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 41/53] fix: keep the contents of iterators given to the
 containers

---
 shgpy/core/data_handler.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 12a89a4..03fb60d 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -7,6 +7,7 @@ from scipy.interpolate import interp1d
 from scipy.integrate import quad
 import logging
 import itertools
+from collections.abc import Iterator
 from copy import deepcopy
 from .. import shg_symbols as S
 from warnings import warn
@@ -15,6 +16,13 @@ from ._fourier_transform import _fourier_transform, _get_terms
 _logger = logging.getLogger(__name__)
 
 
+def _list_if_iterator(iterable):
+    # an iterator (zip, generator, ...) can be read only once
+    if isinstance(iterable, Iterator):
+        return list(iterable)
+    return iterable
+
+
 class DataContainer:
     """Contains SHG data in `phi`-space.
 
@@ -48,6 +56,7 @@ class DataContainer:
     def __init__(self, iterable, input_angle_units, normal_to_oblique=False):
         input_angle_units = input_angle_units.lower()
         self._check_angle_units(input_angle_units)
+        iterable = _list_if_iterator(iterable)
         self._check_defining_iterable(iterable)
         self._input_angle_units = input_angle_units
         self._scale = 1
@@ -438,6 +447,7 @@ class fDataContainer:
 
     def __init__(self, iterable, M=16):
         self._M = M
+        iterable = _list_if_iterator(iterable)
         self._check_defining_iterable(iterable)
         self._fdata_dict = deepcopy(dict(iterable))
         self._scale = 1
@@ -695,6 +705,7 @@ class fFormContainer:
     """
     def __init__(self, iterable, M=16):
         self._M = M
+        iterable = _list_if_iterator(iterable)
         self._check_defining_iterable(iterable)
         self._fform_dict = self._copy_iterable(iterable)
         self._sympify()
@@ -910,6 +921,7 @@ class FormContainer:
     """
 
     def __init__(self, iterable):
+        iterable = _list_if_iterator(iterable)
         self._check_defining_iterable(iterable)
         self._form_dict = self._copy_iterable(iterable)
         self._sympify()
-- 
2.43.0


From 3b7c3868b65b249908c39764db9619d29975cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 42/53] fix: substitute in every polarization when given an
 iterator of pairs

---
 shgpy/core/data_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 03fb60d..96ce720 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -760,6 +760,7 @@ class fFormContainer:
             An array of pairs of values. For example, to substitute the expression
             `2*xyz` for the variable `xxx`, use ``subs_array = ((xxx, 2*xyz),)``.
         """
+        subs_array = _list_if_iterator(subs_array)
         subs_fform_dict = {}
         for k,v in self.get_items():
             subs_fform_dict[k] = np.zeros(shape=(2*self._M+1,), dtype=object)
@@ -956,6 +957,7 @@ class FormContainer:
             An array of pairs of values. For example, to substitute the expression
             `2*psi` for the variable `phi`, use ``subs_array = ((phi, 2*psi))``.
         """
+        subs_array = _list_if_iterator(subs_array)
         subs_form_dict = {}
         for k,v in self.get_items():
             subs_form_dict[k] = self._form_dict[k].subs(subs_array)
-- 
2.43.0


From 6729b96da54aa718918631884cb7db56c03d80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 43/53] fix: normalize very long and very short vectors in
 rotation matrices

---
 shgpy/core/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index b2205dd..fe4bdb4 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -231,7 +231,8 @@ def _cross_product(v1, v2):
 
 
 def _norm(v):
-    return np.sqrt(v[0]**2 + v[1]**2 + v[2]**2)
+    # hypot neither overflows nor underflows
+    return np.hypot(np.hypot(float(v[0]), float(v[1])), float(v[2]))
 
 
 def _normsymb(v):
-- 
2.43.0


From 3d0690d44d59b4fac5f988bf51fc4cfcdd844868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 44/53] fix: find all the files of polarizations whose names
 hold glob characters

---
 shgpy/fformfit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index f163e57..20c6dcc 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -29,6 +29,7 @@ import os
 import shutil
 from pathlib import Path
 import ctypes
+from glob import escape
 from math import ceil
 
 _logger = logging.getLogger(__name__)
@@ -389,7 +390,7 @@ def _load_func_dict(fform, save_folder, multiprocessing=False):
             for component in ['real', 'imag']:
                 cost_func_dict[k][m][component] = []
                 prefix = '_'.join((k, str(m), component))
-                n_files = len(list(save_folder.glob(prefix+'_*.so')))
+                n_files = len(list(save_folder.glob(escape(prefix)+'_*.so')))
                 for ei in range(max(n_files, 1)):
                     path = save_folder / Path(f'{prefix}_{ei}.so')
                     _logger.debug(f'Loading cost function from {path}')
-- 
2.43.0


From cfdcde597ae7e77ed9bccc47bd9539ca2a974c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 45/53] fix: quote the file names given to the compiler

---
 shgpy/fformfit.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 20c6dcc..1ebfe79 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -31,6 +31,7 @@ from pathlib import Path
 import ctypes
 from glob import escape
 from math import ceil
+from shlex import quote
 
 _logger = logging.getLogger(__name__)
 
@@ -269,8 +270,8 @@ def _fixed_autowrap_model(
 
                         start = time.time()
                         _logger.debug(f'Start compiling code for PC={k}, m={m}')
-                        _system(f'{method} -w -c -lm {c_path} -o {o_path}')
-                        _system(f'{method} -w -shared {o_path} -o {so_path}')
+                        _system(f'{method} -w -c -lm {quote(str(c_path))} -o {quote(str(o_path))}')
+                        _system(f'{method} -w -shared {quote(str(o_path))} -o {quote(str(so_path))}')
                         _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
                         if save_folder is not None:
@@ -438,8 +439,8 @@ def _fixed_autowrap(
 
         start = time.time()
         _logger.debug('Start compiling code.')
-        _system(f'{method} -w -c -lm {c_path} -o {o_path}')
-        _system(f'{method} -w -shared {o_path} -o {so_path}')
+        _system(f'{method} -w -c -lm {quote(str(c_path))} -o {quote(str(o_path))}')
+        _system(f'{method} -w -shared {quote(str(o_path))} -o {quote(str(so_path))}')
         _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
         cost_func = _load_func(so_path, multiprocessing=multiprocessing)
@@ -506,8 +507,8 @@ double autofunc(double *xs){
 
         start = time.time()
         _logger.debug('Start compiling code.')
-        _system(f'{method} -w -c -lm -fPIC {c_path} -o {o_path}')
-        _system(f'{method} -w -shared -fPIC {o_path} -o {so_path}')
+        _system(f'{method} -w -c -lm -fPIC {quote(str(c_path))} -o {quote(str(o_path))}')
+        _system(f'{method} -w -shared -fPIC {quote(str(o_path))} -o {quote(str(so_path))}')
         _logger.debug(f'Compiling code took {time.time()-start} seconds.')
 
         cost_func = _load_func(so_path, multiprocessing=multiprocessing)
-- 
2.43.0


From 731125a93cfb9ebd3896b82e1320583baa9f5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 46/53] fix: let the gradient fits handle cost functions that
 are constant

---
 shgpy/fformfit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 1ebfe79..7259226 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -184,9 +184,8 @@ def _make_energy_expr_list(fform, fdat, free_symbols=None):
     return energy_expr_list, xs
 
 
-def _make_denergy_expr(energy_expr):
-    xs = list(energy_expr.free_symbols)[0]
-    n = xs.shape[0]
+def _make_denergy_expr(energy_expr, n):
+    xs = sp.MatrixSymbol('xs', n, 1)
     return np.array([sp.diff(energy_expr, xs[i]) for i in range(n)])
 
 
@@ -677,8 +676,10 @@ def _make_energy_and_denergy_func_wrapper(fform, fdat, free_symbols=None,
         raise NotImplementedError('Chunking the gradient function is not'
                                   ' implemented yet.')
     else:
+        if free_symbols is None:
+            free_symbols = fform.get_free_symbols()
         energy_expr = _make_energy_expr(fform, fdat, free_symbols)
-        denergy_expr = _make_denergy_expr(energy_expr)
+        denergy_expr = _make_denergy_expr(energy_expr, len(free_symbols))
         f_energy = _make_energy_func_auto(
             energy_expr,
             save_filename,
-- 
2.43.0


From 82e7ba83d6eda142320acfbb3d0f9bcbb85ac2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 47/53] fix: generate functions in several threads at once

sympy may not be used by several threads at the same time: generating
functions concurrently failed every now and then inside of sympy.
---
 shgpy/fformfit.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 7259226..36e81a6 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -27,8 +27,10 @@ import logging
 from warnings import warn
 import os
 import shutil
+import threading
 from pathlib import Path
 import ctypes
+from functools import wraps
 from glob import escape
 from math import ceil
 from shlex import quote
@@ -49,8 +51,28 @@ def _system(command):
         raise RuntimeError(f'{command} failed.')
 
 
+# sympy may not be used by several threads at once.
+_sympy_lock = threading.RLock()
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(
+        before=_sympy_lock.acquire,
+        after_in_parent=_sympy_lock.release,
+        after_in_child=_sympy_lock.release,
+    )
+
+
+def _symbolic(func):
+    """Let only one thread at a time run `func`."""
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        with _sympy_lock:
+            return func(*args, **kwargs)
+    return wrapper
+
+
 class _FloatCCodeGen(CCodeGen):
 
+    @_symbolic
     def routine(self, *args, **kwargs):
         # sympy would have an integer-valued expression return an int, but
         # the generated functions are called as functions returning a double.
@@ -61,6 +83,10 @@ class _FloatCCodeGen(CCodeGen):
         ]
         return routine
 
+    @_symbolic
+    def write(self, *args, **kwargs):
+        return super().write(*args, **kwargs)
+
 
 def _make_codegen():
     # sympy does not know the C names of these functions, and would print
@@ -113,6 +139,7 @@ def _split(a, num_per):
     return ans
 
 
+@_symbolic
 def _split_expr(expr, num_per):
     if expr.func != sp.Add:
         _logger.debug(f'expr has only one term:\n{expr}')
@@ -138,6 +165,7 @@ def _check_fform(fform):
         return ret
 
 
+@_symbolic
 def _make_energy_expr(fform, fdat, free_symbols=None):
 
     if free_symbols is None:
@@ -160,6 +188,7 @@ def _make_energy_expr(fform, fdat, free_symbols=None):
     return energy_expr
 
 
+@_symbolic
 def _make_energy_expr_list(fform, fdat, free_symbols=None):
 
     if free_symbols is None:
@@ -184,11 +213,13 @@ def _make_energy_expr_list(fform, fdat, free_symbols=None):
     return energy_expr_list, xs
 
 
+@_symbolic
 def _make_denergy_expr(energy_expr, n):
     xs = sp.MatrixSymbol('xs', n, 1)
     return np.array([sp.diff(energy_expr, xs[i]) for i in range(n)])
 
 
+@_symbolic
 def _make_model_expr(fform, pc, m, component, free_symbols=None):
     if free_symbols is None:
         free_symbols = fform.get_free_symbols()
-- 
2.43.0


From a691ceaeb400e39c843a9fb2ca8b1e326348cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 48/53] fix: accept tuples and arrays of index pairs in
 tensor_contract

---
 shgpy/core/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index fe4bdb4..73937c7 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -322,7 +322,7 @@ def tensor_contract(tensor, index_pairs):
     """
     ans = tensor
     index_idx = list(range(len(np.shape(tensor))))
-    index_pairs = index_pairs[:]
+    index_pairs = list(index_pairs)
     while len(index_pairs) > 0:
         old_index_pair = index_pairs.pop(0)
         new_index_pair = [index_idx.index(old_index_pair[i]) for i in range(len(old_index_pair))]
-- 
2.43.0


From df33e5300acce3e19d9f54251d4987f1edc79169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 49/53] fix: normalize very long and very short axes in
 rotation_matrix3symb

---
 shgpy/core/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shgpy/core/utilities.py b/shgpy/core/utilities.py
index 73937c7..4b9d4fa 100644
--- a/shgpy/core/utilities.py
+++ b/shgpy/core/utilities.py
@@ -195,6 +195,8 @@ def rotation_matrix3symb(n,t, ndigits=16):
     -------
     rotation_matrix3symb : ndarray of sympy.Expr
     """
+    # unlike those of numpy, the numbers of sympy neither overflow nor underflow
+    n = [sp.sympify(n[i]) for i in range(3)]
     n_mag = _normsymb(n)
     n = [n[i]/n_mag for i in range(3)]
     c = sp.cos(t)
-- 
2.43.0


From 9737d24a0c7f8f091695f58e88f4996dc076b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 50/53] fix: let the least squares fits start at objectives
 which round below zero

---
 shgpy/fformfit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index 36e81a6..b817f29 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -792,7 +792,7 @@ def least_squares_fit(fform, fdat, guess_dict,
 
     if load_cost_func_filename is not None:
         pre_f_energy = _load_func(load_cost_func_filename)
-        f_energy = lambda x: np.sqrt(pre_f_energy(x))
+        f_energy = lambda x: np.sqrt(np.maximum(pre_f_energy(x), 0))
     else:
         pre_f_energy = _make_energy_func_wrapper(
             fform,
@@ -801,7 +801,7 @@ def least_squares_fit(fform, fdat, guess_dict,
             chunk_cost_func,
             save_cost_func_filename,
         )
-        f_energy = lambda x: np.sqrt(pre_f_energy(x))
+        f_energy = lambda x: np.sqrt(np.maximum(pre_f_energy(x), 0))
 
     _logger.info('Done with energy function generation. It took'
                  f'{time.time()-start} seconds.')
@@ -871,7 +871,7 @@ def least_squares_fit_with_bounds(fform, fdat, guess_dict,
 
     if load_cost_func_filename is not None:
         pre_f_energy = _load_func(load_cost_func_filename)
-        f_energy = lambda x: np.sqrt(pre_f_energy(x))
+        f_energy = lambda x: np.sqrt(np.maximum(pre_f_energy(x), 0))
     else:
         pre_f_energy = _make_energy_func_wrapper(
             fform,
@@ -880,7 +880,7 @@ def least_squares_fit_with_bounds(fform, fdat, guess_dict,
             chunk_cost_func,
             save_cost_func_filename,
         )
-        f_energy = lambda x: np.sqrt(pre_f_energy(x))
+        f_energy = lambda x: np.sqrt(np.maximum(pre_f_energy(x), 0))
 
     _logger.info('Done with energy function generation. It took '
                  f'{time.time()-start} seconds.')
-- 
2.43.0


From b1fc6614ad805460ef5758101434931f415b7be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 51/53] fix: sort free symbols of the same name in the same
 order in every process

---
 shgpy/core/data_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 96ce720..1376209 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -7,6 +7,7 @@ from scipy.interpolate import interp1d
 from scipy.integrate import quad
 import logging
 import itertools
+from functools import cmp_to_key
 from collections.abc import Iterator
 from copy import deepcopy
 from .. import shg_symbols as S
@@ -748,6 +749,7 @@ class fFormContainer:
                 for fs in self._fform_dict[k][n2i(m, self._M)].free_symbols:
                     free_symbols.append(fs)
         free_symbols = list(set(free_symbols))
+        free_symbols.sort(key=cmp_to_key(sp.Basic.compare))
         free_symbols.sort(key=str)
         return free_symbols
 
@@ -945,6 +947,7 @@ class FormContainer:
             for fs in self._form_dict[k].free_symbols:
                 free_symbols.append(fs)
         free_symbols = list(set(free_symbols))
+        free_symbols.sort(key=cmp_to_key(sp.Basic.compare))
         free_symbols.sort(key=str)
         return free_symbols
 
-- 
2.43.0


From 0c5d779d4a7d369e02159a9a3f7d81b9ec9dec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 52/53] fix: differentiate conjugates of parameters not
 declared real in the gradient fits

---
 shgpy/fformfit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shgpy/fformfit.py b/shgpy/fformfit.py
index b817f29..b2d9a77 100644
--- a/shgpy/fformfit.py
+++ b/shgpy/fformfit.py
@@ -216,7 +216,11 @@ def _make_energy_expr_list(fform, fdat, free_symbols=None):
 @_symbolic
 def _make_denergy_expr(energy_expr, n):
     xs = sp.MatrixSymbol('xs', n, 1)
-    return np.array([sp.diff(energy_expr, xs[i]) for i in range(n)])
+    # Parameters are real, so that conjugates can be differentiated.
+    reals = [sp.Dummy(real=True) for i in range(n)]
+    real_expr = energy_expr.xreplace({xs[i]:reals[i] for i in range(n)})
+    mapping = {reals[i]:xs[i] for i in range(n)}
+    return np.array([sp.diff(real_expr, r).xreplace(mapping) for r in reals])
 
 
 @_symbolic
-- 
2.43.0


From 1d81ae66910b298a364e7137d4628865f08c3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 53/53] fix: leave data containers as they were when a filter
 fails

---
 shgpy/core/data_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shgpy/core/data_handler.py b/shgpy/core/data_handler.py
index 1376209..5361fa9 100644
--- a/shgpy/core/data_handler.py
+++ b/shgpy/core/data_handler.py
@@ -170,9 +170,11 @@ class DataContainer:
             Keywork arguments to pass to `filter`.
 
         """
+        new_data_dict = {}
         for pc, (xdata, ydata) in self._data_dict.items():
-            new_ydata = filter(ydata, *args, **kwargs)
-            self._data_dict[pc] = np.array([xdata, new_ydata])
+            new_ydata = filter(np.copy(ydata), *args, **kwargs)
+            new_data_dict[pc] = np.array([xdata, new_ydata])
+        self._data_dict = new_data_dict
 
     def scale_data(self, scale_factor):
         """Scale the data by a constant factor."""
-- 
2.43.0

