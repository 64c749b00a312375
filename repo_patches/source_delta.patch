From 3ef3f965cc353864786fb41abaf697e8e12ff279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:48 +0000
Subject: [PATCH 01/33] fix: honour gran_logic when calibrating and in the
 second pass of the solver

---
 calkulate/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index 355085f..b00e097 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -706,6 +706,7 @@ def solve_emf(
             alkalinity_init=sr.alkalinity,
             double=False,  # if True this becomes an infinite loop, so don't
             emf0_init=sr.emf0,
+            gran_logic=gran_logic,
             pH_min=pH_min,
             pH_max=pH_max,
             titrant_normality=titrant_normality,
@@ -875,6 +876,7 @@ def _lsqfun_calibrate_emf(
     alkalinity_init,
     double,
     emf0_init,
+    gran_logic,
     pH_min,
     pH_max,
     titrant_normality,
@@ -902,6 +904,7 @@ def _lsqfun_calibrate_emf(
         alkalinity_init=alkalinity_init,
         double=double,
         emf0_init=emf0_init,
+        gran_logic=gran_logic,
         pH_min=pH_min,
         pH_max=pH_max,
         titrant_normality=titrant_normality,
@@ -933,6 +936,7 @@ def calibrate_emf(
     pH_max=4,
     titrant_molinity_init=0.1,
     titrant_normality=1,
+    gran_logic="v23.7+",
     **titrant_totals,
 ):
     """Solve for `titrant_molinity` given `alkalinity_certified`.
@@ -976,6 +980,9 @@ def calibrate_emf(
         0.1.
     titrant_normality : float, optional
         Titrant normality, by default 1 (e.g., for HCl).
+    gran_logic : str, optional
+        Which data points to use for the Gran-plot estimates, either "v23.7+"
+        (default) or "legacy".
 
     Returns
     -------
@@ -997,6 +1004,7 @@ def calibrate_emf(
             alkalinity_init,
             double,
             emf0_init,
+            gran_logic,
             pH_min,
             pH_max,
             titrant_normality,
-- 
2.43.0


From 26a895b899c0a75ea44ed08ab8bee09c6d3cf894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:21 +0000
Subject: [PATCH 02/33] fix: treat null metadata as not provided when making a
 Titration, as a Dataset does

---
 calkulate/classes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8ac59d5..03be473 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -6,7 +6,8 @@ import PyCO2SYS as pyco2
 from .convert import get_dilution_factor
 from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .dataset import _backcompat, add_solve_results
-from .files import solve
+from .files import keys_solve, solve
+from .meta import _get_kwargs_for
 
 
 def to_Titration(ds, index, **kwargs):
@@ -173,7 +174,13 @@ class Titration:
         self.kwargs = _backcompat(kwargs, row)
         for k, v in kwargs.items():
             self.row[k] = v
-        self.sr = solve(**self.row)
+        # As for a Dataset, null values mean "not provided"
+        self.sr = solve(
+            self.row.file_name,
+            self.row.titrant_molinity,
+            self.row.salinity,
+            **_get_kwargs_for(keys_solve, {}, self.row),
+        )
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
             "temperature": self.sr.temperature,
-- 
2.43.0


From 0a79437b980fa48b4440ddca541dc43939997400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:33 +0000
Subject: [PATCH 03/33] fix: make str and repr of a Titration work without a
 file_path

---
 calkulate/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 03be473..4941ee4 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -228,17 +228,17 @@ class Titration:
             raise AttributeError(key)
 
     def __str__(self):
-        if "file_path" in self.row:
+        if "file_path" in self.row and pd.notnull(self.row.file_path):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
-        if "file_path" in self.row:
+        if "file_path" in self.row and pd.notnull(self.row.file_path):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def get_alkalinity_from_acid(self):
-- 
2.43.0


From 7adb72aefefe27556cc0b3c637e6fadbd4c15e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 04/33] fix: fill in analyte_mass of a Titration made with
 analyte_volume

---
 calkulate/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 4941ee4..39bbc0b 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -188,6 +188,7 @@ class Titration:
             "used": self.sr.used,
         }
         self.row = add_solve_results(self.row, self.sr)
+        self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
                 {
-- 
2.43.0


From 96b9dfe3ec3058c9acc8fd3a3ae0ea1b78ddff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 05/33] fix: account for titrant_normality in the Titration
 table

---
 calkulate/classes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 39bbc0b..be39b9a 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -242,10 +242,16 @@ class Titration:
             f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
+    def get_titrant_normality(self):
+        normality = self.row.get("titrant_normality")
+        return 1 if pd.isnull(normality) else normality
+
     def get_alkalinity_from_acid(self):
         self.titration["alkalinity_from_acid"] = (
             1e-6 * self.alkalinity * self.analyte_mass
-            - self.titration.titrant_mass * self.titrant_molinity
+            - self.titration.titrant_mass
+            * self.titrant_molinity
+            * self.get_titrant_normality()
         ) / (self.analyte_mass + self.titration.titrant_mass)
 
     def do_CO2SYS(self):
@@ -305,6 +311,7 @@ class Titration:
             st.alkalinity_from_pH
             + st.titrant_mass
             * self.titrant_molinity
+            * self.get_titrant_normality()
             / (st.titrant_mass + self.analyte_mass)
         ) / st.dilution_factor
 
-- 
2.43.0


From f8891390c16e766c594ae025d7e9df5f5a43d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:26 +0000
Subject: [PATCH 06/33] fix: treat a null read_dat_method cell as not provided

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1b62fbf..0e7e12a 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -52,7 +52,7 @@ def _backcompat(kwargs, row):
     for old, new in old2new.items():
         if old in kwargs:
             kwargs[new] = kwargs[old]
-        if "read_dat_method" in row:
+        if old in row and pd.notnull(row[old]):
             kwargs[new] = row[old]
     return kwargs
 
-- 
2.43.0


From a467526ac1dcc791fd19b4df003cdef98e9ff34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:54 +0000
Subject: [PATCH 07/33] fix: read negative values in PC LIMS report files

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index ab45ee3..30a50a6 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -46,7 +46,7 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (n_cols - 1))
+    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (n_cols - 1))
     data = []
     i = 0
     stop = False
-- 
2.43.0


From 8631e618d20a6b3dab190f42ed048e77bdf4347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:08 +0000
Subject: [PATCH 08/33] fix: name the unrecognised file_type in the read_dat
 warning

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index 30a50a6..b66293e 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -171,8 +171,8 @@ keys_read_dat = {
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
     """Import a titration dataset from a .dat file."""
     if file_type not in file_types:
-        file_type = "genfromtxt"
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
+        file_type = "genfromtxt"
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From 8b37ce8c1a923f9195f4357dfc0cf8c8fab3f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:23 +0000
Subject: [PATCH 09/33] fix: allow titrant to contain a total that is absent
 from the analyte

---
 calkulate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index b00e097..b17fc5d 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -509,7 +509,7 @@ def add_titrant_totals(
     for t_total, factor in titrant_totals.items():
         assert t_total.startswith("titrant_total_")
         total = t_total[8:]
-        totals[total] += (
+        totals[total] = totals.get(total, 0) + (
             titrant_mass
             * (titrant_molinity - titrant_molinity_prev)
             * factor
-- 
2.43.0


From c2c2a0b38163088dae90eaded4bd72f3905707a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:50 +0000
Subject: [PATCH 10/33] fix: do not truncate temperature_override for integer
 temperatures (Tiamo files)

---
 calkulate/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/convert.py b/calkulate/convert.py
index c8798de..52a1bf4 100644
--- a/calkulate/convert.py
+++ b/calkulate/convert.py
@@ -206,7 +206,9 @@ def amount_units(
     dd = dat_data
     # Overwrite temperature, if requested
     if temperature_override is not None:
-        temperature = np.full_like(dd.temperature, temperature_override)
+        temperature = np.full_like(
+            dd.temperature, temperature_override, dtype=float
+        )
     else:
         temperature = dd.temperature
     # Get titrant mass
-- 
2.43.0


From 425ca9a12ee0b4ec1e9d930c85376abad684e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 11/33] fix: honour kwargs and opt_k_carbonic when filling in
 dataset total salts and units

---
 calkulate/dataset.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 0e7e12a..e7150fc 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -13,23 +13,34 @@ from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
 
-def get_total_salts(ds):
+def get_total_salts(ds, opt_k_carbonic=10, opt_total_borate=1, **kwargs):
     """Estimate total salt contents from salinity using PyCO2SYS without
     overwriting existing values.  Operates in-place.
     """
     assert "salinity" in ds, 'Dataset must contain a "salinity" column.'
-    # Use opt_total_borate = 1 where it's not provided
+    # Use kwarg or default values for options where they're not provided
+    if "opt_k_carbonic" in ds:
+        opt_k_carbonic = ds.opt_k_carbonic.where(
+            ds.opt_k_carbonic.notnull(), opt_k_carbonic
+        ).values
     if "opt_total_borate" in ds:
         ds["opt_total_borate"] = ds.opt_total_borate.where(
-            ds.opt_total_borate.notnull(), 1
+            ds.opt_total_borate.notnull(), opt_total_borate
         )
     else:
-        ds["opt_total_borate"] = 1
+        ds["opt_total_borate"] = opt_total_borate
     salts = ["total_sulfate", "total_borate", "total_fluoride"]
+    # Use kwarg values for salts where they're not provided
+    for salt in salts:
+        if kwargs.get(salt) is not None:
+            if salt not in ds:
+                ds[salt] = np.nan
+            ds[salt] = ds[salt].where(ds[salt].notnull(), other=kwargs[salt])
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
         results = pyco2.sys(
             salinity=ds.salinity.values,
+            opt_k_carbonic=opt_k_carbonic,
             opt_total_borate=ds.opt_total_borate.values,
         )
         for salt in salts:
@@ -107,8 +118,8 @@ def get_batches(ds):
     return batches
 
 
-def prepare(ds):
-    get_total_salts(ds)
+def prepare(ds, **kwargs):
+    get_total_salts(ds, **kwargs)
     # Get analyte_mass from analyte_volume if required
     if "analyte_mass" not in ds:
         assert "analyte_volume" in ds, (
@@ -120,7 +131,7 @@ def prepare(ds):
     if "titrant_amount_unit" in ds:
         ds["titrant_amount_unit"] = np.where(
             pd.isnull(ds.titrant_amount_unit),
-            "ml",
+            kwargs.get("titrant_amount_unit", "ml"),
             ds.titrant_amount_unit,
         )
     if "file_good" not in ds:
@@ -145,7 +156,7 @@ def calibrate(ds, verbose=False, **kwargs):
         The titration metadataset with additional columns found by the solver.
     """
     print("Calkulate: calibrating titrant_molinity...")
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "alkalinity_certified" in ds, (
         'ds must contain an "alkalinity_certified" column!'
     )
@@ -254,7 +265,7 @@ def solve(ds, verbose=False, **kwargs):
             "kwargs not recognised, being ignored: "
             + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
         )
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "titrant_molinity" in ds, (
         'ds must contain an "titrant_molinity" column!'
     )
-- 
2.43.0


From 1c59e308869310bda36fa7e71be0b68358187d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:20 +0000
Subject: [PATCH 12/33] fix: use all references not marked as bad in every
 calibration

---
 calkulate/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index e7150fc..9bc9ddb 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -168,7 +168,11 @@ def calibrate(ds, verbose=False, **kwargs):
     if "analysis_batch" not in ds:
         ds["analysis_batch"] = 0
     if "reference_good" not in ds:
-        ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
+        ds["reference_good"] = True
+    else:
+        ds["reference_good"] = ds.reference_good.where(
+            ds.reference_good.notnull(), True
+        ).astype(bool)
     batches = get_batches(ds)
     ds["titrant_molinity"] = batches.loc[
         ds.analysis_batch, "titrant_molinity"
-- 
2.43.0


From 54437272882a008ba3e4d59a95fb691462ceb63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:50 +0000
Subject: [PATCH 13/33] fix: do not fail the whole calibration when a titration
 has no analysis_batch

---
 calkulate/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 9bc9ddb..ae1d5db 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -174,9 +174,9 @@ def calibrate(ds, verbose=False, **kwargs):
             ds.reference_good.notnull(), True
         ).astype(bool)
     batches = get_batches(ds)
-    ds["titrant_molinity"] = batches.loc[
-        ds.analysis_batch, "titrant_molinity"
-    ].to_numpy()
+    ds["titrant_molinity"] = (
+        batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
+    )
     print("Calkulate: calibration complete!")
     ds = solve(ds, verbose=verbose, **kwargs)
     return ds
-- 
2.43.0


From 1f0fdc205de32dbe97a087ddddb05a7fe69d61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:16 +0000
Subject: [PATCH 14/33] fix: keep bottle names as text when importing a dbs
 file

---
 calkulate/read/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 71c6477..0347c36 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -114,7 +114,7 @@ def read_dbs(
     """
     headers = np.genfromtxt(fname, delimiter="\t", dtype=str, max_rows=1)
     dbs = pd.read_table(
-        fname, header=0, names=headers, usecols=headers
+        fname, header=0, names=headers, usecols=headers, dtype={"bottle": str}
     ).rename(columns={"run type": "run_type"})
     dbs["dbs_fname"] = fname
     dbs = add_func_cols(dbs, dbs_datetime)
-- 
2.43.0


From 07d5c1a8b1da1e98a9f906631dd3f7b03ccd1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:30 +0000
Subject: [PATCH 15/33] fix: predict CRM file names when some rows of a dbs
 file have no batch

---
 calkulate/read/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 0347c36..aaacca4 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -70,7 +70,10 @@ def get_VINDTA_filenames(dbs, filename_format="{s}-{c}  {n}  ({d}){b}.dat"):
                 b=row.bottle,
             )
         elif row.run_type == "CRM":
-            dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
+            batch = row.batch
+            if isinstance(batch, float) and batch.is_integer():
+                batch = int(batch)  # float if there are gaps in the column
+            dbs.loc[i, "file_name"] = f"CRM{batch}{row.bottle}.dat"
             dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
         else:
             dbs.loc[i, "file_good"] = False
-- 
2.43.0


From 4fac63f10c5670a68700c2cb60ce52de21f28f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:44 +0000
Subject: [PATCH 16/33] fix: import dbs files in which a row has a date but no
 time

---
 calkulate/read/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index aaacca4..32b7b51 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -44,7 +44,7 @@ def dbs_datetime(dbs_row):
             + "T"
             + dbs_row["time"]
         )
-    except AttributeError:
+    except (AttributeError, TypeError):  # no date or no time
         analysis_datetime = np.datetime64("NaT")
     return pd.Series(
         {
-- 
2.43.0


From bff0945d299e8df9f8c06cd7c34ab5ad2b086069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:13 +0000
Subject: [PATCH 17/33] fix: make the documented function calk.calkulate
 available

---
 calkulate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/__init__.py b/calkulate/__init__.py
index 146e88f..0b94fc5 100644
--- a/calkulate/__init__.py
+++ b/calkulate/__init__.py
@@ -16,7 +16,7 @@
 """Determine (sea)water total alkalinity from titration data."""
 
 from .classes import Dataset, Titration, to_Titration
-from .dataset import calibrate, solve
+from .dataset import calibrate, calkulate, solve
 from .meta import __author__, __version__, hello
 from .read.metadata import (
     read_clipboard,
@@ -38,6 +38,7 @@ __all__ = [
     "say_hello",
     "Dataset",
     "calibrate",
+    "calkulate",
     "solve",
     "read_dat",
     "read_clipboard",
-- 
2.43.0


From b6c0ff8b59eef8fef62836280789778d09acf8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 18/33] fix: return the axes from plot_components, as the other
 plots do

---
 calkulate/plot/titration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/plot/titration.py b/calkulate/plot/titration.py
index 9fe2ff4..891332b 100644
--- a/calkulate/plot/titration.py
+++ b/calkulate/plot/titration.py
@@ -419,3 +419,4 @@ def components(tt, ax=None, log_scale=True):
         ax.set_ylabel("Content / μmol/kg-sw")
     ax.legend(bbox_to_anchor=(1.05, 1))
     add_credit(ax)
+    return ax
-- 
2.43.0


From 8c9b74da2d0cbf7e7b49547cd78d77ee98d6c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:44 +0000
Subject: [PATCH 19/33] fix: allow a Titration to be copied and pickled

---
 calkulate/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index be39b9a..88e4d00 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -216,6 +216,8 @@ class Titration:
         try:
             return object.__getattribute__(self, attr)
         except AttributeError:
+            if attr == "row":  # not set yet, e.g. when copying or unpickling
+                raise
             try:
                 return self.row[attr]
             except KeyError:
-- 
2.43.0


From c59582dfd297e8e78c8b58e29da8e053253fe3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:47 +0000
Subject: [PATCH 20/33] fix: adjust EMF0 fully when its first guess is near
 zero

---
 calkulate/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index b17fc5d..e9cf1cb 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -658,7 +658,9 @@ def solve_emf(
             ks_used,
             titrant_normality,
         ),
-        **kwargs_least_squares,
+        # Alkalinity and EMF0 differ by orders of magnitude, so unless they are
+        # scaled the solver barely adjusts EMF0 when its first guess is near 0
+        **{"x_scale": "jac", **kwargs_least_squares},
     )
     # Unpack and process results
     alkalinity = opt_result["x"][0] * 1e6
-- 
2.43.0


From 016c06404daf93511f3be95cca0bf39dfe565a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:04 +0000
Subject: [PATCH 21/33] fix: converge on the titrant molinity for titrations
 with outliers

---
 calkulate/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index e9cf1cb..9b3a7a3 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -1012,7 +1012,9 @@ def calibrate_emf(
             titrant_normality,
         ),
         kwargs=titrant_totals,
-        **kwargs_least_squares,
+        # The default step for the Jacobian is so small that the change in
+        # alkalinity would be within the tolerance of `solve_emf`
+        **{"diff_step": 1e-4, **kwargs_least_squares},
     )
 
 
-- 
2.43.0


From 6b19b5dceba4116a131448c370dc53520eb49130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:17 +0000
Subject: [PATCH 22/33] fix: do not stop solving before EMF0 reaches its best
 fit

---
 calkulate/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 9b3a7a3..1d805bd 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -530,7 +530,8 @@ def _lsqfun_solve_emf(
     titrant_normality,
 ):
     # Calculate residuals for the solver
-    alkalinity, emf0 = alkalinity_emf0
+    alkalinity, emf0_V = alkalinity_emf0
+    emf0 = emf0_V * 1e3
     pH = convert.emf_to_pH(emf, emf0, temperature)
     mixture_mass = titrant_mass + analyte_mass
     dilution_factor = convert.get_dilution_factor(titrant_mass, analyte_mass)
@@ -644,10 +645,11 @@ def solve_emf(
     ks_used = {
         k: v[used] if np.size(v) > 1 else v for k, v in k_constants.items()
     }
-    # Solve for alkalinity and EMF0
+    # Solve for alkalinity and EMF0 - with the latter in V, because in mV its
+    # gradient can be within the solver's tolerance far from the best fit
     opt_result = least_squares(
         _lsqfun_solve_emf,
-        [alkalinity, emf0],
+        [alkalinity, emf0 * 1e-3],
         args=(
             titrant_molinity,
             titrant_mass[used],
@@ -663,6 +665,7 @@ def solve_emf(
         **{"x_scale": "jac", **kwargs_least_squares},
     )
     # Unpack and process results
+    opt_result["x"][1] *= 1e3  # V to mV
     alkalinity = opt_result["x"][0] * 1e6
     alkalinity_std = np.std(opt_result["fun"]) * 1e6
     emf0 = opt_result["x"][1]
-- 
2.43.0


From 7039884fae5d9e68455eef830a80653d4fc7d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 23/33] fix: file layout settings from dataset columns with
 gaps (floats) can be used (C11)

---
 calkulate/read/titrations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index b66293e..8459c92 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -167,12 +167,16 @@ keys_read_dat = {
     "skip_header",
 }
 
+keys_read_dat_int = keys_read_dat - {"delimiter", "encoding", "file_type"}
+
 
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
     """Import a titration dataset from a .dat file."""
     if file_type not in file_types:
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
         file_type = "genfromtxt"
+    for k in keys_read_dat_int & kwargs.keys():
+        kwargs[k] = int(kwargs[k])  # float if there are gaps in a column
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From 04bfbc48b0741dc9e0a840d5cb2ee388d9a161a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:14 +0000
Subject: [PATCH 24/33] fix: do not report initial guesses as solved when no
 points are in the pH range (C03)

---
 calkulate/dataset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index ae1d5db..5fc6392 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -186,11 +186,13 @@ def add_solve_results(solved, sr):
     if isinstance(sr, SolveEmfResult):
         solved["alkalinity_npts"] = sr.used.sum()
         solved["alkalinity_std"] = sr.alkalinity_all[sr.used].std()
-        solved["alkalinity"] = sr.alkalinity
-        solved["emf0"] = sr.emf0
+        # With no points in the pH range, sr only contains the initial guesses
+        found = sr.used.any()
+        solved["alkalinity"] = sr.alkalinity if found else np.nan
+        solved["emf0"] = sr.emf0 if found else np.nan
         solved["gran_alkalinity"] = sr.ggr.alkalinity * 1e6
         solved["gran_emf0"] = sr.ggr.emf0
-        solved["pH_init"] = sr.pH[0]
+        solved["pH_init"] = sr.pH[0] if found else np.nan
         solved["temperature_init"] = sr.temperature[0]
     elif isinstance(sr, SolvePhResult):
         solved["alkalinity_npts"] = sr.used.sum()
-- 
2.43.0


From e97d57f355816fdef90fada8c1768f196ffe9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:11 +0000
Subject: [PATCH 25/33] fix: documented default of opt_k_carbonic is the one
 used (C11)

---
 docs/metadata.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/metadata.md b/docs/metadata.md
index 186c1f3..c0d31b9 100644
--- a/docs/metadata.md
+++ b/docs/metadata.md
@@ -125,7 +125,7 @@ Like for the recommended columns, if optional column values are only needed for
     * `2` : [KRCB77](https://PyCO2SYS.readthedocs.io/en/latest/refs/#k).
 
 ??? info "`opt_k_carbonic` : *which carbonic acid dissociation constants to use*"
-    Sets which carbonic acid constants to use from PyCO2SYS, can be any integer from `1` to `16` inclusive.  Default is `16` for [SLH20](https://pyco2sys.readthedocs.io/en/latest/refs/#s).  See the [PyCO2SYS docs on `opt_k_carbonic`](https://pyco2sys.readthedocs.io/en/latest/co2sys_nd/#settings) for details.
+    Sets which carbonic acid constants to use from PyCO2SYS, can be any integer from `1` to `16` inclusive.  Default is `10` for [LDK00](https://pyco2sys.readthedocs.io/en/latest/refs/#l).  See the [PyCO2SYS docs on `opt_k_carbonic`](https://pyco2sys.readthedocs.io/en/latest/co2sys_nd/#settings) for details.
 
 ??? info "`opt_k_fluoride` : *which HF dissociation constant to use*"
     Sets whether the HF dissociation constant is estimated from salinity and temperature by [PyCO2SYS](https://PyCO2SYS.rtfd.io) following:
-- 
2.43.0


From b1eaf9841734d53187530db053b5cfbdaf9ff2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:24 +0000
Subject: [PATCH 26/33] fix: Titration results are never left over from the
 dataset row (C12)

---
 calkulate/classes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 88e4d00..a765de5 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -1,5 +1,6 @@
 import os
 
+import numpy as np
 import pandas as pd
 import PyCO2SYS as pyco2
 
@@ -187,7 +188,14 @@ class Titration:
             "pH": self.sr.pH,
             "used": self.sr.used,
         }
+        # Don't keep the dataset's results, which may be from other settings
+        for k in ["alkalinity_std", "emf0", "gran_alkalinity", "gran_emf0"]:
+            self.row[k] = np.nan
         self.row = add_solve_results(self.row, self.sr)
+        if "alkalinity_certified" in self.row:
+            self.row["alkalinity_offset"] = (
+                self.row.alkalinity - self.row.alkalinity_certified
+            )
         self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
-- 
2.43.0


From 255bde34eb169cfde84a0349f587132ec66f9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:08 +0000
Subject: [PATCH 27/33] fix: documented names of the Gran plotting methods
 exist (C16)

---
 calkulate/classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index a765de5..95cb3ff 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -333,3 +333,6 @@ class Titration:
         gran_emf0 as plot_emf0_gran,
         pH as plot_pH,
     )
+
+    plot_gran_alkalinity = plot_alkalinity_gran
+    plot_gran_emf0 = plot_emf0_gran
-- 
2.43.0


From 9f22a51deab52e71ddce9b07e97792afab5b5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:32 +0000
Subject: [PATCH 28/33] fix: simulated DIC loss starts from the diluted DIC
 when titrant_mass_start > 0 (C17)

---
 calkulate/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/simulate.py b/calkulate/simulate.py
index e4643a0..d08d0ab 100644
--- a/calkulate/simulate.py
+++ b/calkulate/simulate.py
@@ -235,7 +235,7 @@ def _titration(
     # Model DIC loss
     if k_dic_loss is not None:
         dic_titration = np.full_like(titrant_mass, np.nan)
-        dic_titration[0] = dic
+        dic_titration[0] = dic * dilution_factor[0]
         for i in range(len(dic_titration) - 1):
             kwargs_i = {
                 k: v if np.isscalar(v) else v[i]
-- 
2.43.0


From 70434d437d0e9d285b5ac0169aacae868d9c0291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:59 +0000
Subject: [PATCH 29/33] fix: show the default pH range when the row's is
 missing (C16)

---
 calkulate/plot/titration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/titration.py b/calkulate/plot/titration.py
index 891332b..4f12329 100644
--- a/calkulate/plot/titration.py
+++ b/calkulate/plot/titration.py
@@ -1,4 +1,5 @@
 import numpy as np
+import pandas as pd
 from matplotlib import pyplot as plt
 from scipy.interpolate import pchip_interpolate
 
@@ -94,8 +95,8 @@ def pH(tt, ax=None, show_gran=True):
         label="Final, used",
         **final_styler.scatter(),
     )
-    pH_min = tt.pH_min if hasattr(tt, "pH_min") else 3
-    pH_max = tt.pH_max if hasattr(tt, "pH_max") else 4
+    pH_min = tt.pH_min if pd.notnull(getattr(tt, "pH_min", None)) else 3
+    pH_max = tt.pH_max if pd.notnull(getattr(tt, "pH_max", None)) else 4
     xlim = ax.get_xlim()
     ax.fill_between(
         xlim,
-- 
2.43.0


From b310abe2b68e828f93e5c203f992c99d91345784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:32 +0000
Subject: [PATCH 30/33] fix: DIC loss model can be fitted with current NumPy
 (C17)

---
 calkulate/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/loss.py b/calkulate/loss.py
index 4cf9918..1c53b28 100644
--- a/calkulate/loss.py
+++ b/calkulate/loss.py
@@ -35,7 +35,7 @@ def _lsqfun_dic_loss_model(
 ):
     return (
         dic_loss_model_fitted(
-            k_dic_loss,
+            k_dic_loss[0],
             i_titrant_mass,
             i_delta_fCO2,
             dic_start,
@@ -174,7 +174,7 @@ def get_dic_loss_hires(
             i_dic_loss,
         ),
     )
-    k_dic_loss = k_dic_loss_opt_result["x"]
+    k_dic_loss = k_dic_loss_opt_result["x"][0]
     # Calculate DIC from k_dic_loss in the fitted region
     i_dic = dic_loss_model_fitted(
         k_dic_loss,
@@ -202,7 +202,7 @@ def get_dic_loss_hires(
         step_tm,
         fCO2_air=fCO2_air,
     )
-    return k_dic_loss[0], {
+    return k_dic_loss, {
         "titrant_mass": a_titrant_mass,
         "pH": a_pH,
         "dic": np.concatenate((i_dic, f_dic)),
-- 
2.43.0


From 00054472eb75ce4cc423f77b9a03fadcd835338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:30 +0000
Subject: [PATCH 31/33] fix: calibration stopped at its first guess if a point
 crosses the pH range there

---
 calkulate/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 1d805bd..ca2468d 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -1016,8 +1016,9 @@ def calibrate_emf(
         ),
         kwargs=titrant_totals,
         # The default step for the Jacobian is so small that the change in
-        # alkalinity would be within the tolerance of `solve_emf`
-        **{"diff_step": 1e-4, **kwargs_least_squares},
+        # alkalinity would be within the tolerance of `solve_emf`, or less than
+        # the jump if a data point enters or leaves the pH range
+        **{"diff_step": 1e-2, **kwargs_least_squares},
     )
 
 
-- 
2.43.0


From 57ae52818a90e7878441117fb8cb534cb4f71137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:32 +0000
Subject: [PATCH 32/33] fix: do not calibrate from the initial guess when no
 points are in the pH range

---
 calkulate/core.py | 52 +++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index ca2468d..43b67de 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -869,9 +869,8 @@ def solve_pH_gran(
     )
 
 
-def _lsqfun_calibrate_emf(
+def _solve_calibrate_emf(
     titrant_molinity,
-    alkalinity_certified,
     titrant_mass,
     measurement,
     temperature,
@@ -887,7 +886,7 @@ def _lsqfun_calibrate_emf(
     titrant_normality,
     **titrant_totals,
 ):
-    """Calculate residuals for the calibrator."""
+    """Solve with a trial `titrant_molinity` for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
         totals,
@@ -923,6 +922,14 @@ def _lsqfun_calibrate_emf(
         titrant_molinity_prev=titrant_molinity,
         **titrant_totals,
     )
+    return sr
+
+
+def _lsqfun_calibrate_emf(
+    titrant_molinity, alkalinity_certified, *args, **titrant_totals
+):
+    """Calculate residuals for the calibrator."""
+    sr = _solve_calibrate_emf(titrant_molinity, *args, **titrant_totals)
     return sr.alkalinity - alkalinity_certified
 
 
@@ -995,31 +1002,36 @@ def calibrate_emf(
         Output from `scipy.optimize.least_squares`, where the solved value is
         `titrant_molinity = opt_result["x"][0]`.
     """
-    return least_squares(
+    args = (
+        titrant_mass,
+        emf,
+        temperature,
+        analyte_mass,
+        totals,
+        k_constants,
+        alkalinity_init,
+        double,
+        emf0_init,
+        gran_logic,
+        pH_min,
+        pH_max,
+        titrant_normality,
+    )
+    opt_result = least_squares(
         _lsqfun_calibrate_emf,
         [titrant_molinity_init],
-        args=(
-            alkalinity_certified,
-            titrant_mass,
-            emf,
-            temperature,
-            analyte_mass,
-            totals,
-            k_constants,
-            alkalinity_init,
-            double,
-            emf0_init,
-            gran_logic,
-            pH_min,
-            pH_max,
-            titrant_normality,
-        ),
+        args=(alkalinity_certified, *args),
         kwargs=titrant_totals,
         # The default step for the Jacobian is so small that the change in
         # alkalinity would be within the tolerance of `solve_emf`, or less than
         # the jump if a data point enters or leaves the pH range
         **{"diff_step": 1e-2, **kwargs_least_squares},
     )
+    # With no points in the pH range, `solve_emf` only returns initial guesses
+    sr = _solve_calibrate_emf(opt_result["x"], *args, **titrant_totals)
+    if not sr.used.any():
+        raise ValueError("No data points in the pH range")
+    return opt_result
 
 
 def _lsqfun_calibrate_pH(
-- 
2.43.0


From b08be89aecaad9d9f391a7f7a46d9873ebe46008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:47 +0000
Subject: [PATCH 33/33] =?UTF-8?q?fix:=20EMF=20solver=20could=20stop=20up?=
 =?UTF-8?q?=20to=201=20=C2=B5mol/kg=20away=20from=20the=20best=20fit?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 calkulate/core.py | 48 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 43b67de..e5407c1 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -647,23 +647,37 @@ def solve_emf(
     }
     # Solve for alkalinity and EMF0 - with the latter in V, because in mV its
     # gradient can be within the solver's tolerance far from the best fit
-    opt_result = least_squares(
-        _lsqfun_solve_emf,
-        [alkalinity, emf0 * 1e-3],
-        args=(
-            titrant_molinity,
-            titrant_mass[used],
-            emf[used],
-            temperature[used],
-            analyte_mass,
-            totals_used,
-            ks_used,
-            titrant_normality,
-        ),
-        # Alkalinity and EMF0 differ by orders of magnitude, so unless they are
-        # scaled the solver barely adjusts EMF0 when its first guess is near 0
-        **{"x_scale": "jac", **kwargs_least_squares},
-    )
+    x0 = [alkalinity, emf0 * 1e-3]
+    for gtol in [1e-8, 1e-12]:
+        opt_result = least_squares(
+            _lsqfun_solve_emf,
+            x0,
+            args=(
+                titrant_molinity,
+                titrant_mass[used],
+                emf[used],
+                temperature[used],
+                analyte_mass,
+                totals_used,
+                ks_used,
+                titrant_normality,
+            ),
+            # Alkalinity and EMF0 differ by orders of magnitude, so unless they
+            # are scaled the solver barely adjusts EMF0 when its first guess is
+            # near 0
+            **{"x_scale": "jac", "gtol": gtol, **kwargs_least_squares},
+        )
+        # Residuals in mol/kg are so small that the default gtol (1e-8) can be
+        # met up to ~1 µmol/kg away from the best fit: if the gradient is not
+        # small relative to the residuals, carry on with a stricter gtol
+        x0 = opt_result["x"]
+        if np.all(
+            np.abs(opt_result["grad"])
+            <= 1e-3
+            * np.linalg.norm(opt_result["jac"], axis=0)
+            * np.linalg.norm(opt_result["fun"])
+        ):
+            break
     # Unpack and process results
     opt_result["x"][1] *= 1e3  # V to mV
     alkalinity = opt_result["x"][0] * 1e6
-- 
2.43.0

