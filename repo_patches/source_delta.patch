From 1e710c26b9e0e02591be33ef7ec9192b55e458ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 01/52] fix: pass the supplied generator to the bandflux
 evaluation in simulate_lightcurves

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 37b39bb..7689af6 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -193,7 +193,7 @@ def simulate_lightcurves(
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-                passbands[survey_idx], obs_times, obs_filters, state
+                passbands[survey_idx], obs_times, obs_filters, state, rng_info=rng
             )
             bandfluxes_error = obstable[survey_idx].bandflux_error_point_source(bandfluxes_perfect, obs_index)
             bandfluxes = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng)
-- 
2.43.0


From 48c3e7966b6ab3618d00cbe702d9f80c57cb9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 02/52] fix: use the supplied generator throughout the SN Ia
 example run

---
 src/lightcurvelynx/example_runs/simulate_snia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/example_runs/simulate_snia.py b/src/lightcurvelynx/example_runs/simulate_snia.py
index 5122ec4..f2183c7 100644
--- a/src/lightcurvelynx/example_runs/simulate_snia.py
+++ b/src/lightcurvelynx/example_runs/simulate_snia.py
@@ -203,12 +203,12 @@ def draw_single_random_sn(
     res["flux_fnu"] = flux_nJy
 
     # Compute the band_flixes over just the given filters.
-    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state)
+    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state, rng_info=rng_info)
     res["bandfluxes_perfect"] = bandfluxes_perfect
 
     bandfluxes_error = opsim.bandflux_error_point_source(bandfluxes_perfect, obs_index)
     res["bandfluxes_error"] = bandfluxes_error
-    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=None)
+    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng_info)
 
     res["state"] = state
 
@@ -274,7 +274,7 @@ def run_snia_end2end(
     passbands = load_and_register_passband(passbands_dir, to_use=["g", "r"])
 
     logger.info(f"Sampling {nsample} states.")
-    sample_states = source.sample_parameters(num_samples=nsample)
+    sample_states = source.sample_parameters(num_samples=nsample, rng_info=rng_info)
 
     res_list = []
     for i in range(0, nsample):
-- 
2.43.0


From 4be38f55a2b51ef1cfb36a357b1e3d9705c6a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 03/52] fix: DistributionSampler draws from the supplied
 generator

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 9c27e6c..f57de19 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -94,7 +94,8 @@ class DistributionSampler(FunctionNode):
 
         # Draw samples of the CDF [0, 1] and then use the inverse CDF spline to map those
         # back to the corresponding x values.
-        cdf_points = self._rng.random(num_samples)
+        rng = rng_info if rng_info is not None else self._rng
+        cdf_points = rng.random(num_samples)
         x_samples = self._inv_cdf(cdf_points)
         self._save_results(x_samples, graph_state)
         return x_samples
-- 
2.43.0


From 3602ca080d46cd59430c5364ba6da2a4600a80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 04/52] fix: SNCoordGivenPhysicalSep draws its position angle
 from the supplied or its own generator

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 43 ++++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index 3f22571..01d6142 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -343,11 +343,19 @@ class SNCoordGivenPhysicalSep(FunctionNode):
         The Hubble constant.
     Omega_m : constant
         The matter density Omega_m.
+    seed : int, optional
+        The seed for the node's random number generator.
     **kwargs : dict, optional
         Any additional keyword arguments.
     """
 
-    def __init__(self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, **kwargs):
+    def __init__(
+        self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs
+    ):
+        # Get a default random number generator for this object, using the
+        # given seed if one is provided.
+        self._rng = np.random.default_rng(seed=seed)
+
         # Create the cosmology once for this node.
         if not isinstance(H0, float) or not isinstance(Omega_m, float):
             raise ValueError("H0 and Omega_m must be constants.")
@@ -386,7 +394,32 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         return angular_sep_rad
 
-    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift):
+    def compute(self, graph_state, rng_info=None, **kwargs):
+        """Compute the SN coordinates.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        **kwargs : dict, optional
+            Additional function arguments.
+
+        Returns
+        -------
+        results : tuple
+            The RA and Dec of the SN (in degrees).
+        """
+        rng = rng_info if rng_info is not None else self._rng
+        args = self._build_inputs(graph_state, **kwargs)
+        results = self._sn_coord(**args, rng=rng)
+        self._save_results(results, graph_state)
+        return results
+
+    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift, rng=None):
         """
         Function to generate SN coordinates given the host coordinates and angular separation.
 
@@ -400,6 +433,8 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             The physical host-sn separation(s) in kpc.
         redshift : float or numpy.ndarray
             The redshift to convert physical separation to angular separation.
+        rng : numpy.random._generator.Generator, optional
+            The random number generator to use. If None the node's generator is used.
 
         Returns
         -------
@@ -409,9 +444,11 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             SN DEC values (in degrees).
         """
 
+        if rng is None:
+            rng = self._rng
         self.angular_sep_rad = self._host_sn_angular_separation(physical_sep_kpc, redshift)
         center = SkyCoord(host_ra * u.deg, host_dec * u.deg, frame="icrs")
-        rand_pa = 2 * np.pi * np.random.random(center.size) * u.rad  # random position angle
+        rand_pa = 2 * np.pi * rng.random(center.size) * u.rad  # random position angle
 
         sn_coord = center.directional_offset_by(rand_pa, self.angular_sep_rad)
         ra = sn_coord.ra.deg
-- 
2.43.0


From 679d3d6d65c0797d7620e79e3c1680100cfc2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 05/52] fix: forward the keyword arguments to compute_sed when
 extrapolating wavelengths

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 2754ca7..1a1affb 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -371,7 +371,7 @@ class SEDModel(BasePhysicalModel):
 
         # Pad the wavelengths with the min and max values and compute the flux at those points.
         query_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
-        computed_flux = self.compute_sed(times, query_waves, graph_state)
+        computed_flux = self.compute_sed(times, query_waves, graph_state, **kwargs)
 
         # Initially zero pad the full array until we fill in the values with extrapolation.
         # We drop the first and last flux values since they were added to get the flux at the
-- 
2.43.0


From b4a6e080c080e6438e1aaa212fdf0a8eeddacf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 06/52] fix: let every SED model accept the keyword arguments
 that the evaluation forwards

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 8 ++++++--
 src/lightcurvelynx/models/static_sed_model.py          | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e98ff0e..d4bab05 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -647,7 +647,7 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
         self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
         super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -658,6 +658,8 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments.
 
         Returns
         -------
@@ -864,7 +866,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
 
         return cls(lightcurves, passbands, **kwargs)
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -875,6 +877,8 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments.
 
         Returns
         -------
diff --git a/src/lightcurvelynx/models/static_sed_model.py b/src/lightcurvelynx/models/static_sed_model.py
index d44a01d..02180d9 100644
--- a/src/lightcurvelynx/models/static_sed_model.py
+++ b/src/lightcurvelynx/models/static_sed_model.py
@@ -177,7 +177,7 @@ class StaticSEDModel(SEDModel):
         idx = self.get_param(graph_state, "selected_idx")
         return self.sed_values[idx][0, -1]
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -188,6 +188,8 @@ class StaticSEDModel(SEDModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments.
 
         Returns
         -------
-- 
2.43.0


From eadfa4a31a654b218ce5a3875d656fbe4a3cc14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 07/52] fix: AGN draws its light curve from the supplied
 generator

---
 src/lightcurvelynx/models/agn.py            | 7 +++++--
 src/lightcurvelynx/models/physical_model.py | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 8ad18ba..6efaa90 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -478,7 +478,7 @@ class AGN(SEDModel):
         G = constants.G.cgs.value
         return 2 ** (3 / 4) * (3 / 7) ** (7 / 4) * (G * M * Mdot / (np.pi * sigma_sb * r_in**3)) ** (1 / 4)
 
-    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
+    def compute_sed(self, times, wavelengths, graph_state, rng_info=None, **kwargs):
         """Draw effect-free observations for this object.
 
         Parameters
@@ -489,6 +489,9 @@ class AGN(SEDModel):
             A length N array of wavelengths (in angstroms).
         graph_state : `GraphState`
             An object mapping graph parameters to their values.
+        rng_info : `numpy.random.Generator`, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
         **kwargs : `dict`, optional
             Any additional keyword arguments.
 
@@ -523,7 +526,7 @@ class AGN(SEDModel):
             tau_v,
             sf_inf,
             params["t0"],
-            rng=self._rng,
+            rng=rng_info if rng_info is not None else self._rng,
         )
 
         flux_density = 10 ** (-0.4 * delta_m) * fnu_average
diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 1a1affb..69f2629 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -436,7 +436,9 @@ class SEDModel(BasePhysicalModel):
             rest_wavelengths = wavelengths
 
         # Compute the flux density for the object and apply any rest frame effects.
-        flux_density = self.compute_sed_with_extrapolation(rest_times, rest_wavelengths, state, **kwargs)
+        flux_density = self.compute_sed_with_extrapolation(
+            rest_times, rest_wavelengths, state, rng_info=rng_info, **kwargs
+        )
         for effect in self.rest_frame_effects:
             flux_density = effect.apply(
                 flux_density,
-- 
2.43.0


From c936da1fd42474bc00ffdd0de1cb3343ca56c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 08/52] fix: derive the ZTF zero points from the table's survey
 settings

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index ca1c0cf..1fb4bd0 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -99,9 +99,9 @@ class ZTFObsTable(ObsTable):
             maglim=self._table["maglim"],
             sky=self._table["sky"],
             fwhm=self._table["fwhm"],
-            gain=_ztfcam_ccd_gain,
-            readnoise=_ztfcam_readout_noise,
-            darkcurrent=_ztfcam_dark_current,
+            gain=self.safe_get_survey_value("gain"),
+            readnoise=self.safe_get_survey_value("read_noise"),
+            darkcurrent=self.safe_get_survey_value("dark_current"),
             exptime=self._table["exptime"],
             nexposure=1,
         )
-- 
2.43.0


From 594564186bbe497a5c5f543c28c20deedde4f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 09/52] fix: get_observations addresses rows by position, as
 range_search returns them

range_search returns positions in the table. After filter_rows (or when rows are
dropped) the labels of the index no longer equal the positions, so the label based
lookup returned other rows' values or raised a KeyError.
---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d0c658d..7c7479e 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -654,7 +654,7 @@ class ObsTable:
             # by using the class accessor (__getitem__), instead of the table one.
             if col not in self:
                 raise KeyError(f"Unrecognized column name {col}")
-            results[col] = self[col][neighbors].to_numpy()
+            results[col] = self[col].iloc[neighbors].to_numpy()
         return results
 
     def bandflux_error_point_source(self, bandflux, index):
-- 
2.43.0


From 5cc4d47f4c242c7aa38bfc99be00e716c48b2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 10/52] fix: filter_rows updates the list of the table's
 filters

The filters attribute is documented as the unique filters in the table, but kept
filters of which no row was left after filter_rows.
---
 src/lightcurvelynx/obstable/obs_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 7c7479e..ddcb7af 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -466,6 +466,7 @@ class ObsTable:
 
         # Filter the rows in-place and build a new kd-tree.
         self._table = self._table[mask]
+        self.filters = np.unique(self._table["filter"]) if "filter" in self._table.columns else np.array([])
         self._kd_tree = None
         self._build_kd_tree()
 
-- 
2.43.0


From bc0651939a228e1d537dd11be41fcf0a7735555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 11/52] fix: range_search accepts a scalar time bound with
 several query points

t_min and t_max are documented as a scalar or one value per query, but a scalar
raised a ValueError unless there was exactly one query point.
---
 src/lightcurvelynx/obstable/obs_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index ddcb7af..f70ccb8 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -567,14 +567,14 @@ class ObsTable:
             if t_min is None:
                 t_min = np.full(num_queries, -np.inf)
             else:
-                t_min = np.atleast_1d(t_min)
+                t_min = np.full(num_queries, t_min) if np.isscalar(t_min) else np.atleast_1d(t_min)
             if len(t_min) != num_queries:
                 raise ValueError(f"t_min must be a scalar or an array of length {num_queries}.")
 
             if t_max is None:
                 t_max = np.full(num_queries, np.inf)
             else:
-                t_max = np.atleast_1d(t_max)
+                t_max = np.full(num_queries, t_max) if np.isscalar(t_max) else np.atleast_1d(t_max)
             if len(t_max) != num_queries:
                 raise ValueError(f"t_max must be a scalar or an array of length {num_queries}.")
 
-- 
2.43.0


From 7db535c949c25ed7beb3a38024497a77af993d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 12/52] fix: oversample_opsim accepts any number of new
 observations

The band names were repeated n // len(bands) times, so building the new table failed
with a length mismatch whenever n was not a multiple of the number of bands.
---
 src/lightcurvelynx/obstable/opsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 622fb73..7920d25 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -324,7 +324,7 @@ def oversample_opsim(
             "time": new_times,
             "ra": ra,
             "dec": dec,
-            "filter": np.tile(bands, n // len(bands)),
+            "filter": np.resize(bands, n),
         }
     )
     other_columns = [column for column in observations.columns if column not in new_table.columns]
-- 
2.43.0


From 67a357d3fb6436c71e4b0772fafb79a5c61d1dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 13/52] fix: RomanObsTable reads the multi-accumulation table
 it is given

_get_ma_table raised UnboundLocalError whenever a path was passed.
---
 src/lightcurvelynx/obstable/roman_obstable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index db90386..6d3c641 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -59,11 +59,11 @@ def _get_roman_char():
 
 def _get_ma_table(ma_table_path=None):
     if ma_table_path is None:
-        ma_table_file = (
+        ma_table_path = (
             _LIGHTCURVELYNX_BASE_DATA_DIR
             / "roman_characterization/roman_wfi_imaging_multiaccum_tables_with_exptime.csv"
         )
-    ma_table = pd.read_csv(ma_table_file)
+    ma_table = pd.read_csv(ma_table_path)
 
     return ma_table
 
-- 
2.43.0


From 4209bdc56f9b2c805cb05c2d7136fde4bcc0d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 14/52] fix: RomanObsTable leaves the caller's table unchanged

The derived columns (zero point, exposure time, observation time, ...) were added to the
table passed in; ObsTable documents that it works on a copy.
---
 src/lightcurvelynx/obstable/roman_obstable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index 6d3c641..5273865 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -103,7 +103,7 @@ class RomanObsTable(ObsTable):
     def __init__(self, table, colmap=None, ma_table_path=None, **kwargs):
         colmap = self._default_colnames if colmap is None else colmap
 
-        self.apt_table = table
+        self.apt_table = table.copy()
         self.ma_table = _get_ma_table(ma_table_path)
         roman_char = _get_roman_char()
         self.zp_table = roman_char["zp_table"]
-- 
2.43.0


From 802c69a89a47430c3a7f96a9d512181ea9041a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 15/52] fix: no time window for samples of a model without t0

---
 src/lightcurvelynx/simulate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 7689af6..99da1f5 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -42,6 +42,10 @@ def get_time_windows(t0, time_window_offset):
     # If t0 is a scalar apply the offset directly.
     if np.isscalar(t0):
         t0 = np.array([t0])
+
+    # A model without a t0 has a value of None for each of its samples.
+    if np.size(t0) > 0 and all(value is None for value in np.ravel(t0)):
+        return None, None
     start_times = t0 - before if before is not None else None
     end_times = t0 + after if after is not None else None
 
-- 
2.43.0


From f5e054f1b4d92c558166cd8c93d0f4c4be5d0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 16/52] fix: keep the values of a single-sample GraphState in
 to_table

---
 src/lightcurvelynx/graph_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 08e3610..e869d93 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -592,7 +592,9 @@ class GraphState:
         values = Table()
         for node_name, node_params in self.states.items():
             for param_name, param_value in node_params.items():
-                values[self.extended_param_name(node_name, param_name)] = np.array(param_value)
+                # A single sample is stored as a plain value, but is still one row of the table.
+                column = [param_value] if self.num_samples == 1 else param_value
+                values[self.extended_param_name(node_name, param_name)] = np.array(column)
         return values
 
     def to_dict(self):
-- 
2.43.0


From 794650c98d239500540b01657e7744aabb8c536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 17/52] fix: GraphState.from_list keeps the parameter order and
 stores a single sample as scalars

---
 src/lightcurvelynx/graph_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index e869d93..2a174d2 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -318,6 +318,7 @@ class GraphState:
             current_full_names = set(current.get_all_params_names())
             if all_param_full_names is None:
                 all_param_full_names = current_full_names
+                ordered_full_names = current.get_all_params_names()
             elif all_param_full_names != current_full_names:
                 raise ValueError(
                     f"The sets of parameters do not match. Expected {all_param_full_names}."
@@ -329,7 +330,7 @@ class GraphState:
 
         # Allocate space for the concatenated states and fill that result.
         result = GraphState(num_samples=total_samples)
-        for full_name in all_param_full_names:
+        for full_name in ordered_full_names:
             node_name, param_name = full_name.split(".")
 
             # Create a numpy array that is the concatenation of all the values
@@ -337,7 +338,7 @@ class GraphState:
             values_list = []
             for current in graph_states:
                 values_list.append(np.atleast_1d(current[full_name]))
-            values = np.concatenate(values_list)
+            values = np.concatenate(values_list) if total_samples > 1 else graph_states[0][full_name]
             result.set(node_name, param_name, values, force_copy=False, fixed=False)
         return result
 
-- 
2.43.0


From 5f98584c941d4a793cf13ae160d6c8517d9f3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 18/52] fix: GraphState.extract_single_sample keeps the fixed
 variables

---
 src/lightcurvelynx/graph_state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 2a174d2..3e4e70f 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -506,6 +506,8 @@ class GraphState:
                     new_state.states[node_name][var_name] = value
                 else:
                     new_state.states[node_name][var_name] = value[sample_num]
+        for node_name, fixed_vars in self.fixed_vars.items():
+            new_state.fixed_vars[node_name] = fixed_vars.copy()
         return new_state
 
     def extract_parameters(self, params):
-- 
2.43.0


From 1481c4a79cc8d00ba840318a3a67bababb955d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 19/52] fix: GraphState equality works for non-numeric
 parameters

---
 src/lightcurvelynx/graph_state.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 3e4e70f..9cad68e 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -135,7 +135,12 @@ class GraphState:
             for var_name, var_value in node_params.items():
                 if var_name not in other_params:
                     return False
-                if not np.allclose(var_value, other_params[var_name]):
+                try:
+                    matches = np.allclose(var_value, other_params[var_name])
+                except TypeError:
+                    # Not all of the values are numeric (e.g. None or a string).
+                    matches = np.array_equal(var_value, other_params[var_name])
+                if not matches:
                     return False
 
         # Finally check that the 'fixed' dictionary is the same.
-- 
2.43.0


From b1fe4b05e938fb2848f8dbe68f1731591428fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 20/52] fix: GraphState rejects an unknown parameter of its
 only node

---
 src/lightcurvelynx/graph_state.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 9cad68e..95767ab 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -103,8 +103,7 @@ class GraphState:
         elif len(self.states) == 1:
             # Special case when we have only a single node stored in the graph state.
             node_state = list(self.states.values())[0]
-            if key in node_state:
-                return True
+            return key in node_state
         else:
             return False
 
@@ -175,8 +174,7 @@ class GraphState:
             node_state = list(self.states.values())[0]
             if key in node_state:
                 return node_state[key]
-        else:
-            raise KeyError(f"Unknown GraphState key: {key}")
+        raise KeyError(f"Unknown GraphState key: {key}")
 
     def copy(self):
         """Create a deep copy of the GraphState.
-- 
2.43.0


From a7b90e038fe269f95f772071e7c81cccdb931458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 21/52] fix: GraphState.copy copies the arrays of a single
 sample

---
 src/lightcurvelynx/graph_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 95767ab..a51d7de 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -189,10 +189,10 @@ class GraphState:
         for node_name, node_vars in self.states.items():
             new_state.states[node_name] = {}
             for var_name, var_value in node_vars.items():
-                if self.num_samples == 1:
-                    new_state.states[node_name][var_name] = var_value
-                else:
+                if isinstance(var_value, np.ndarray):
                     new_state.states[node_name][var_name] = var_value.copy()
+                else:
+                    new_state.states[node_name][var_name] = var_value
         for node_name, fixed_vars in self.fixed_vars.items():
             new_state.fixed_vars[node_name] = fixed_vars.copy()
         return new_state
-- 
2.43.0


From 432a9340551f47517e48771cf4c79e1f69fd84bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 22/52] fix: GraphState.set accepts None for many samples and
 copies when asked to

---
 src/lightcurvelynx/graph_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index a51d7de..b3c3fbf 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -425,8 +425,10 @@ class GraphState:
         # Set the actual values.
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
+            if force_copy and isinstance(value, np.ndarray):
+                value = value.copy()
             self.states[node_name][var_name] = value
-        elif np.isscalar(value):
+        elif value is None or np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
         elif len(value) != self.num_samples:
@@ -435,7 +437,7 @@ class GraphState:
                 f"variable={var_name}: {self.num_samples} vs {len(value)}."
             )
         elif force_copy:
-            self.states[node_name][var_name] = np.array(value.copy())
+            self.states[node_name][var_name] = np.array(value)
         else:
             self.states[node_name][var_name] = np.asarray(value)
 
-- 
2.43.0


From 3e3f66bacc2e88cefbc2dbd7649ccb20a8ba245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 23/52] fix: MultiObjectModel.set_apply_redshift applies the
 setting to the objects that support it

---
 src/lightcurvelynx/models/multi_object_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2098781..3643b07 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -88,9 +88,10 @@ class MultiObjectModel(SEDModel):
         apply_redshift : bool
             The new value for apply_redshift.
         """
-        for idx, object in enumerate(self.objects):
-            if self._is_bandflux[idx]:
-                object.set_apply_redshift(apply_redshift)
+        if self._any_bandflux:
+            raise NotImplementedError("BandfluxModels do not support apply_redshift.")
+        for object in self.objects:
+            object.set_apply_redshift(apply_redshift)
 
     def add_effect(self, effect):
         """Add an effect to each of the submodels.
-- 
2.43.0


From df40cfe420e3f36ca680b681b48b8e2818a39fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 24/52] fix: RandomMultiObjectModel.minwave and maxwave look up
 the selected object by its name

---
 src/lightcurvelynx/models/multi_object_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 3643b07..7d9bbca 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -459,8 +459,10 @@ class RandomMultiObjectModel(MultiObjectModel):
             The minimum wavelength of the model (in angstroms) or None
             if the model does not have a defined minimum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].minwave(graph_state=graph_state)
+        # The selected object is given by its name (as sampled) or its index.
+        selected = self.get_param(graph_state, "selected_object")
+        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return model.minwave(graph_state=graph_state)
 
     def maxwave(self, graph_state=None):
         """Get the maximum wavelength of the model.
@@ -477,8 +479,10 @@ class RandomMultiObjectModel(MultiObjectModel):
             The maximum wavelength of the model (in angstroms) or None
             if the model does not have a defined maximum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].maxwave(graph_state=graph_state)
+        # The selected object is given by its name (as sampled) or its index.
+        selected = self.get_param(graph_state, "selected_object")
+        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return model.maxwave(graph_state=graph_state)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From 3acfb1f79128d2aa30e4895625fc98ed10289305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 25/52] fix: RandomMultiObjectModel keeps every object when
 names collide

---
 src/lightcurvelynx/models/multi_object_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 7d9bbca..2bfdba1 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -439,8 +439,14 @@ class RandomMultiObjectModel(MultiObjectModel):
         super().__init__(objects, **kwargs)
 
         # Create a parameter to indicate which object was selected.
-        object_names = object_names or [src.node_string for src in objects]
-        self.object_map = {name: src for name, src in zip(object_names, objects, strict=False)}
+        if not object_names:
+            object_names = [src.node_string for src in objects]
+            if len(set(object_names)) != len(objects):
+                # Unlabeled objects of the same class share a name, so use the index instead.
+                object_names = [f"{src.node_string}_{idx}" for idx, src in enumerate(objects)]
+        if len(object_names) != len(objects) or len(set(object_names)) != len(objects):
+            raise ValueError("Each object must have its own unique name.")
+        self.object_map = {name: src for name, src in zip(object_names, objects, strict=True)}
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
 
-- 
2.43.0


From 106ccaef99547b48d965cfc409871fdeb7bdbafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 26/52] fix: evaluate_sed does not pass its model keyword
 arguments to sample_parameters

---
 src/lightcurvelynx/models/physical_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 69f2629..19f7443 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -497,9 +497,7 @@ class SEDModel(BasePhysicalModel):
 
         # Check if we need to sample the graph.
         if graph_state is None:
-            graph_state = self.sample_parameters(
-                given_args=given_args, num_samples=1, rng_info=rng_info, **kwargs
-            )
+            graph_state = self.sample_parameters(given_args=given_args, num_samples=1, rng_info=rng_info)
 
         # If we only have a single sample, do not bother to iterate through the states.
         if graph_state.num_samples == 1:
-- 
2.43.0


From 8ee50092d87b564a380b6eb74ed7b6ba82fcabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 27/52] fix: LightcurveData keeps the zero flux default
 baseline and the caller's dictionary when converting magnitudes

---
 .../models/lightcurve_template_model.py               | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index d4bab05..85d6be9 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -145,12 +145,11 @@ class LightcurveData:
             for filter in self.lightcurves:
                 if filter not in baseline:
                     raise ValueError(f"Baseline value for filter {filter} is missing.")
-            self.baseline = baseline
-
-        # Convert the baseline from magnitudes to fluxes if needed.
-        if magnitudes_in:
-            for filter in self.baseline:
-                self.baseline[filter] = mag2flux(self.baseline[filter])
+            # Copy the baseline, converting from magnitudes to fluxes if needed.
+            if magnitudes_in:
+                self.baseline = {filter: mag2flux(value) for filter, value in baseline.items()}
+            else:
+                self.baseline = dict(baseline)
 
     def __len__(self):
         """Get the number of light curves."""
-- 
2.43.0


From 7e3b0bf5311727371cb5aafeb1d3db758555e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 28/52] fix: LightcurveData stores light curves given as
 integer arrays without truncating them

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 85d6be9..1cce524 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -94,7 +94,7 @@ class LightcurveData:
 
         if isinstance(lightcurves, dict):
             # Make a copy of the light curves to avoid modifying the original data.
-            self.lightcurves = {filter: lc.copy() for filter, lc in lightcurves.items()}
+            self.lightcurves = {filter: lc.astype(float) for filter, lc in lightcurves.items()}
         elif isinstance(lightcurves, np.ndarray):
             if lightcurves.shape[1] != 3:
                 raise ValueError("Light curves array must have 3 columns: time, flux, and filter.")
-- 
2.43.0


From 153665198df6e0c765a30b21b05a0bff6e312077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 29/52] fix: light curve template filters (and the nodes made
 from them) have a reproducible order

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 1cce524..ea6e9d1 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -230,8 +230,7 @@ class LightcurveData:
         if filters is None:
             filters = filter_cols
         else:
-            to_keep = set(filter_cols) & set(filters)
-            filters = list(to_keep)
+            filters = [col for col in filter_cols if col in filters]
         if len(filters) == 0:
             raise ValueError("Light curves table must have at least one filter column.")
 
@@ -796,7 +795,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
             self.all_filters.update(lc.filters)
         self.lightcurves = lightcurves
 
-        super().__init__(passbands, filters=list(self.all_filters), **kwargs)
+        super().__init__(passbands, filters=sorted(self.all_filters), **kwargs)
 
         all_inds = [i for i in range(len(lightcurves))]
         self._sampler_node = GivenValueSampler(all_inds, weights=weights)
@@ -806,7 +805,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
         # Create a parameter to track the baseline values for the selected light curve. The node
         # will automatically fill in the correct baseline value based on the index given by
         # the selected_lightcurve parameter.
-        for fltr in self.all_filters:
+        for fltr in self.filters:
             baselines = [lc.baseline.get(fltr, 0.0) for lc in lightcurves]
             baseline_selector = GivenValueSelector(baselines, self.selected_lightcurve)
             self.add_parameter(f"baseline_{fltr}", value=baseline_selector, allow_gradient=False)
-- 
2.43.0


From bbfb5865740a80f63f5341ae1d13b5467a247223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 30/52] fix: LightcurveTemplateModel accepts a LightcurveData
 instance as documented

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index ea6e9d1..e313287 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -642,7 +642,10 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
         **kwargs,
     ):
         # Store the light curve data, parsing out different formats if needed.
-        self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
+        if isinstance(lightcurves, LightcurveData):
+            self.lightcurves = lightcurves
+        else:
+            self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
         super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)
 
     def compute_sed(self, times, wavelengths, graph_state, **kwargs):
-- 
2.43.0


From ba123c6049014cbe44d53866461c05be601f7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 31/52] fix: Passband tables with duplicate wavelengths are
 averaged instead of failing

---
 src/lightcurvelynx/astro_utils/passbands.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 7346a61..df5585c 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -704,9 +704,9 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            table_values[dup_inds, 1] = 0.5 * (table_values[dup_inds, 1] + table_values[dup_inds + 1, 1])
-            table_values = np.delete(table_values, dup_inds + 1, axis=0)
+            waves, inverse, counts = np.unique(table_values[:, 0], return_inverse=True, return_counts=True)
+            mean_values = np.bincount(inverse, weights=table_values[:, 1]) / counts
+            table_values = np.column_stack((waves, mean_values))
         self._loaded_table = np.copy(table_values)
 
         # Ensure the wavelengths are in Angstroms.
@@ -997,9 +997,9 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            loaded_table[dup_inds, 1] = 0.5 * (loaded_table[dup_inds, 1] + loaded_table[dup_inds + 1, 1])
-            loaded_table = np.delete(loaded_table, dup_inds + 1, axis=0)
+            waves, inverse, counts = np.unique(loaded_table[:, 0], return_inverse=True, return_counts=True)
+            mean_values = np.bincount(inverse, weights=loaded_table[:, 1]) / counts
+            loaded_table = np.column_stack((waves, mean_values))
 
         return loaded_table
 
-- 
2.43.0


From d080a46c0663941e733da95b9ae7d2b01c3a9468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 32/52] fix: Passband with no transmission raises the
 documented ValueError

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index df5585c..08342fc 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1143,7 +1143,7 @@ class Passband:
             raise ValueError(
                 "Denominator is zero; cannot normalize transmission table. "
                 f"Consider checking the transmission table for band {self.full_name}. "
-                f"With wave grid set to: {self._wave_grid}, transmission table wavelengths are: "
+                f"With delta_wave set to: {self.delta_wave}, transmission table wavelengths are: "
                 f"{transmission_table[:, 0]}."
             )
 
-- 
2.43.0


From 040657590dd6a59560f07754b10849379c1f9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 33/52] fix: Passband.delta_wave is the actual step of the wave
 grid, so bandfluxes stay normalized

---
 src/lightcurvelynx/astro_utils/passbands.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 08342fc..688287c 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1024,6 +1024,9 @@ class Passband:
 
         self.waves = self.processed_transmission_table[:, 0]
         self.delta_wave = delta_wave
+        if delta_wave is not None:
+            # The regridding keeps both end points, so the actual step can differ from the requested one.
+            self.delta_wave = (self.waves[-1] - self.waves[0]) / (len(self.waves) - 1)
 
     def _interpolate_transmission_table(self, table: np.ndarray, delta_wave: float | None) -> np.ndarray:
         """Interpolate the transmission table to a new wave grid.
-- 
2.43.0


From 0e208ba482c036f19bf15623aac713991422d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 34/52] fix: PassbandGroup maps merged wavelengths to the grid
 point they were merged into

---
 src/lightcurvelynx/astro_utils/passbands.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 688287c..682ba2c 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -487,7 +487,9 @@ class PassbandGroup:
             # We only want the fluxes that are in the passband's wavelength range
             # So, find the indices in the group's wave grid that are in the passband's wave grid
             lower, upper = passband.waves[0], passband.waves[-1]
-            lower_index, upper_index = np.searchsorted(self.waves, [lower, upper])
+            # Nearby wavelengths were merged into the lowest one, so use the last grid point that is
+            # not above each of the passband's wavelengths.
+            lower_index, upper_index = np.searchsorted(self.waves, [lower, upper], side="right") - 1
 
             # Check that this is the right grid after all (check will fail if passbands overlap and passbands
             # do not happen to be on the same phase of the grid; eg, even if the step is 10, if the first
@@ -495,7 +497,7 @@ class PassbandGroup:
             if np.array_equal(self.waves[lower_index : upper_index + 1], passband.waves):
                 indices = slice(lower_index, upper_index + 1)
             else:
-                indices = np.searchsorted(self.waves, passband.waves)
+                indices = np.searchsorted(self.waves, passband.waves, side="right") - 1
             self._in_band_wave_indices[name] = indices
 
     def wave_bounds(self):
-- 
2.43.0


From eaa6dbd4124c4481588dac46fde45680df7d87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 35/52] fix: PassbandGroup.from_dir works with relative
 directories, in a fixed order

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 682ba2c..111cdb6 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -205,7 +205,7 @@ class PassbandGroup:
 
         # Iterate through the files in the directory.
         all_params = []
-        for entry in dir_path.iterdir():
+        for entry in sorted(dir_path.iterdir()):
             if entry.is_file():
                 filter_name = entry.stem
 
@@ -214,7 +214,7 @@ class PassbandGroup:
                     params = {
                         "survey": dir_path.name,
                         "filter_name": filter_name,
-                        "table_path": dir_path / entry,
+                        "table_path": entry,
                         "delta_wave": delta_wave,
                         "trim_quantile": trim_quantile,
                         "units": units,
-- 
2.43.0


From 8f5bbc9d8270db86aedc2cf196960c8b8d90e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 36/52] fix: PassbandGroup.from_preset('roman') accepts the
 units and force_download arguments

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 111cdb6..c1a7b1e 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -344,7 +344,9 @@ class PassbandGroup:
                 f"Roman passbands are expected to be in microns (micron), but got {kwargs.get('units')}"
             )
 
-        force_download = kwargs.get("force_download", False)
+        # These arguments describe the table and its download (not the individual Passband objects).
+        force_download = kwargs.pop("force_download", False)
+        kwargs.pop("units", None)
         table_path = table_dir / "Roman" / "roman_wfi_filters.ecsv"
         table_url = (
             "https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/"
-- 
2.43.0


From 61030b84a9c1badf6cc31a55a7ca78bf9cf5b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 37/52] fix: PassbandGroup.fluxes_to_bandflux rejects ambiguous
 filter names

---
 src/lightcurvelynx/astro_utils/passbands.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index c1a7b1e..857902c 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -570,6 +570,11 @@ class PassbandGroup:
         """
         if filter not in self.passbands:
             if filter in self._filter_to_name:
+                if len(self._filter_to_name[filter]) > 1:
+                    raise ValueError(
+                        f"Filter {filter} corresponds to multiple passbands: {self._filter_to_name[filter]}.\n"
+                        "Use the full name."
+                    )
                 filter = self._filter_to_name[filter][0]
             else:
                 raise ValueError(f"Filter {filter} not found in passband group.")
-- 
2.43.0


From d233b9f158a3119ace3e058cc265e9aeb22cadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 38/52] fix: GivenValueSampler accepts integer weights and
 leaves the caller's weights unchanged

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 8b7abba..cb99679 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -153,7 +153,7 @@ class GivenValueSampler(NumpyRandomFunc):
             self._weights = np.asarray(weights)
             if len(self._weights) != self._num_values:
                 raise ValueError("Weights must match the number of values provided.")
-            self._weights /= np.sum(self._weights)
+            self._weights = self._weights / np.sum(self._weights)
         else:
             self._weights = None
 
-- 
2.43.0


From 8043d4c41ffb82dea8223208a149efc7114ff258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 39/52] fix: NumpyRandomFunc draws each sample of a sized
 output with its own parameters

---
 src/lightcurvelynx/math_nodes/np_random.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/np_random.py b/src/lightcurvelynx/math_nodes/np_random.py
index d81b04c..bbf1faf 100644
--- a/src/lightcurvelynx/math_nodes/np_random.py
+++ b/src/lightcurvelynx/math_nodes/np_random.py
@@ -125,6 +125,13 @@ class NumpyRandomFunc(FunctionNode):
 
         # Set the size according to the number of samples.
         size_param = (graph_state.num_samples, *self.sample_size)
+        if graph_state.num_samples > 1 and len(self.sample_size) > 0:
+            # Parameters with one value per sample vary along the first axis only.
+            per_sample = (-1, *([1] * len(self.sample_size)))
+            args = {
+                key: np.reshape(val, per_sample) if np.shape(val) == (graph_state.num_samples,) else val
+                for key, val in args.items()
+            }
         if size_param == (1,):
             # If we are generating a single sample use None so it isn't in an array.
             size_param = None
-- 
2.43.0


From 20cb6c6f7923cae5df726d607e169e758f165dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 40/52] fix: DistributionSampler integrates the PDF over x so
 the CDF starts at zero

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index f57de19..d37f4b3 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -6,6 +6,7 @@ an interpolation of the inverse CDF function.
 from os import urandom
 
 import numpy as np
+from scipy.integrate import cumulative_trapezoid
 from scipy.interpolate import interp1d
 
 from lightcurvelynx.base_models import FunctionNode
@@ -53,7 +54,7 @@ class DistributionSampler(FunctionNode):
 
         # Create the CDF values (and normalize it to 1) and then create an interpolation
         # of the inverse CDF function.
-        cdf_samples = np.cumsum(y)
+        cdf_samples = cumulative_trapezoid(y, x, initial=0.0)
         cdf_samples /= cdf_samples[-1]
         self._inv_cdf = interp1d(cdf_samples, x, kind=kind, fill_value=0.0)
 
-- 
2.43.0


From 576015364de74d000c5453f983ee094dd80035ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 41/52] fix: ObsTableRADECSampler returns floats for a single
 sample

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 8fd248e..2a07cc2 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -138,8 +138,9 @@ class ObsTableRADECSampler(TableSampler):
 
             # Choose a uniform circle around the center point. Not that this is not uniform over
             # the final RA, dec because it does not account for compression in dec around the polls.
-            offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=graph_state.num_samples))
-            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=graph_state.num_samples)
+            size = None if graph_state.num_samples == 1 else graph_state.num_samples
+            offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=size))
+            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=size)
 
             # Add the offsets to RA and dec. Keep time unchanged.
             results[0] += offset_amt * np.cos(offset_ang)  # RA
-- 
2.43.0


From 068308b8a75da185d03d4ac9e777f29fda5cf1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:59 +0000
Subject: [PATCH 42/52] fix: PZFlowNode samples a conditional flow for a single
 sample

---
 src/lightcurvelynx/astro_utils/pzflow_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/pzflow_node.py b/src/lightcurvelynx/astro_utils/pzflow_node.py
index 58e2ced..ce02816 100644
--- a/src/lightcurvelynx/astro_utils/pzflow_node.py
+++ b/src/lightcurvelynx/astro_utils/pzflow_node.py
@@ -101,7 +101,7 @@ class PZFlowNode(FunctionNode, CiteClass):
             all_params = self.get_local_params(graph_state)
             input_params = {}
             for col in self.conditional_cols:
-                input_params[col] = all_params[col]
+                input_params[col] = np.atleast_1d(all_params[col])
             input_df = pd.DataFrame(input_params)
 
             samples = self.flow.sample(1, conditions=input_df, seed=seed)
-- 
2.43.0


From 5746176d0129a56b8e232a34d618d76820c48ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:59 +0000
Subject: [PATCH 43/52] fix: BasicMathNode rejects calls of unnamed functions
 with its documented ValueError

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 79405e8..2001d1c 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -201,8 +201,8 @@ class BasicMathNode(FunctionNode):
                 continue
             elif isinstance(node, ast.Call):
                 # Check that function calls are only using items on the allow list.
-                if node.func.id not in self._math_map:
-                    raise ValueError(f"Unsupported function {node.func.id}")
+                if not isinstance(node.func, ast.Name) or node.func.id not in self._math_map:
+                    raise ValueError(f"Unsupported function {ast.unparse(node.func)}")
             elif isinstance(node, ast.Name):
                 if node.id in kwargs:
                     # This is a user supplied variable.
-- 
2.43.0


From 2968de8d782c6e4d207c657645d1b13c67ffeab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 44/52] fix: augmenting results with invalid fluxes no longer
 fails

lightcurve_compute_snr returns a masked array; the detection flag compared
masked entries with None, so any non-positive flux raised a TypeError.
---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 8092744..3387dcb 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -144,7 +144,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     # Compute SNR and detection flag.
     snr = lightcurve_compute_snr(flux, fluxerr)
     results["lightcurve.snr"] = snr
-    results["lightcurve.detection"] = [(x is not None and x >= min_snr) for x in snr]
+    results["lightcurve.detection"] = [(x is not ma.masked and x >= min_snr) for x in snr]
 
     # Compute magnitude and magnitude error.
     mag, magerr = lightcurve_compute_mag(flux, fluxerr)
-- 
2.43.0


From 3fcbf0e577ef5f421e449e32a9e395e39859a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 45/52] fix: relative times are computed when a t0 is zero

np.all(t0) is False as soon as one reference time is 0.0.
---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 3387dcb..2401df1 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -152,7 +152,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     results["lightcurve.magerr"] = magerr
 
     # If t0 is provided as a column in results, compute relative time.
-    if "t0" in results.columns and np.all(results["t0"]) and results["t0"].notna().all():
+    if "t0" in results.columns and results["t0"].notna().all():
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-- 
2.43.0


From 9413c2612a92826c2e451a0a4ca84294275cd656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 46/52] fix: relative times use the t0 of their own object

Index labels were used as positions, which is wrong (or out of range) for a
table whose index is not 0..N-1, e.g. after results_drop_empty.
---
 src/lightcurvelynx/utils/post_process_results.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 2401df1..b3da036 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -156,8 +156,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-        # Get the index for the t0 entry for each lightcurve MJD and use that
+        # Repeat each object's t0 for every entry of its light curve and use that
         # to subtract out the reference t0.
-        t0 = np.asanyarray(results["t0"])
-        t0_idx = np.array(results["lightcurve"]["mjd"].index)
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0[t0_idx]
+        t0 = np.repeat(results["t0"].to_numpy(), results["lightcurve"].nest.list_lengths)
+        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0
-- 
2.43.0


From c122ffd71a3cacd5bb1cf626e19d214d2e984399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 47/52] fix: force_download fetches the file again

pooch.retrieve without a known hash returns an existing file unchanged, so
forcing the download of an existing file did nothing.
---
 src/lightcurvelynx/utils/data_download.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightcurvelynx/utils/data_download.py b/src/lightcurvelynx/utils/data_download.py
index 1f805ba..7ea0bc2 100644
--- a/src/lightcurvelynx/utils/data_download.py
+++ b/src/lightcurvelynx/utils/data_download.py
@@ -39,6 +39,11 @@ def download_data_file_if_needed(data_path, data_url, force_download=False):
     # Create the directory in which to save the file if it does not already exist.
     data_path.parent.mkdir(parents=True, exist_ok=True)
 
+    # Pooch does not fetch a file that already exists (without a known hash), so remove
+    # the current copy if we are forcing a new download.
+    if force_download:
+        data_path.unlink(missing_ok=True)
+
     # Use pooch to download the data files and extract them to the data directory.
     full_path = pooch.retrieve(
         url=data_url,
-- 
2.43.0


From 624a577b4c86ce54f710d9e904642255dda0df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 48/52] fix: grid data can be read from FITS files

The documented format 'fits' failed with a TypeError: its reader takes no
comment argument.
---
 src/lightcurvelynx/utils/io_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 17891b5..5b4c819 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -103,7 +103,11 @@ def read_grid_data(input_file, format="ascii", validate=False):
     if not Path(input_file).is_file():
         raise FileNotFoundError(f"File {input_file} not found.")
 
-    data = Table.read(input_file, format=format, comment=r"\s*#")
+    # The comment marker only applies to text formats.
+    if "fits" in format:
+        data = Table.read(input_file, format=format)
+    else:
+        data = Table.read(input_file, format=format, comment=r"\s*#")
     if len(data.colnames) != 3:
         raise ValueError(
             f"Incorrect format for grid data in {input_file} with format {format}. "
-- 
2.43.0


From a5e73cc955e1f5cf51021e0b21cb008ee5898b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:49 +0000
Subject: [PATCH 49/52] fix: numpy data written to a .dat file can be read back

---
 src/lightcurvelynx/utils/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 5b4c819..63203fc 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -33,7 +33,7 @@ def read_numpy_data(file_path):
         data = np.load(file_path)["arr_0"]
     elif file_path.suffix in [".csv", ".ecsv"]:
         data = np.loadtxt(file_path, delimiter=",", comments="#")
-    elif file_path.suffix in [".txt"]:
+    elif file_path.suffix in [".txt", ".dat"]:
         data = np.loadtxt(file_path, comments="#")
     else:
         raise ValueError(f"Unsupported file format: {file_path.suffix}.")
-- 
2.43.0


From b5a368ef1ea966aedff27420d8cbb0d6a29c33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:49 +0000
Subject: [PATCH 50/52] fix: BayeSN's spline surface passes through its grid
 values

The cubic terms of a natural spline with second derivatives M are scaled by
h**2 / 6, and the tridiagonal system solves for M / 2. With grid steps other
than one the surface missed its own grid values.
---
 src/lightcurvelynx/models/bayesn.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 0e1bcfa..22e9081 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -254,7 +254,8 @@ class BayesnModel(SEDModel, CiteClass):
         M = np.zeros(n)
         for j in range(n - 2, 0, -1):
             M[j] = z[j] - mu[j] * M[j + 1]
-        return M
+        # The system above solves for half of the second derivatives.
+        return 2 * M
 
     def compute_2d_second_derivatives(self, x, y, z):
         """
@@ -357,10 +358,10 @@ class BayesnModel(SEDModel, CiteClass):
                 Mx11 = Mx[x1_idx, y1_idx]
 
                 # Interpolate in x for both fixed y0 and y1
-                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx / 6 + (
+                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx**2 / 6 + (
                     ax * (z00 - Mx00 * hx**2 / 6) + bx * (z10 - Mx10 * hx**2 / 6)
                 )
-                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx / 6 + (
+                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx**2 / 6 + (
                     ax * (z01 - Mx01 * hx**2 / 6) + bx * (z11 - Mx11 * hx**2 / 6)
                 )
 
@@ -375,7 +376,7 @@ class BayesnModel(SEDModel, CiteClass):
             My0 = My[xi_idx, y0_idx]
             My1 = My[xi_idx, y1_idx]
 
-            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy / 6 + (
+            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy**2 / 6 + (
                 ay * (f_y0 - My0 * hy**2 / 6) + by * (f_y1 - My1 * hy**2 / 6)
             )
 
-- 
2.43.0


From 15fe4e832a569af7d9694d8a4165e52fba114bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:03 +0000
Subject: [PATCH 51/52] fix: bound the wavelengths of a redback source by that
 source

The bounds check of RedbackWrapperModel.compute_sed() called
compute_sed_with_extrapolation(), which used the model's own bounds (0 to
infinity) and called compute_sed() again with the same wavelengths until the
recursion limit was hit.
---
 src/lightcurvelynx/models/physical_model.py | 16 +++++++++++++---
 src/lightcurvelynx/models/redback_models.py | 13 +++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 19f7443..57c840a 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -330,7 +330,9 @@ class SEDModel(BasePhysicalModel):
         """
         raise NotImplementedError()
 
-    def compute_sed_with_extrapolation(self, times, wavelengths, graph_state, **kwargs):
+    def compute_sed_with_extrapolation(
+        self, times, wavelengths, graph_state, *, min_valid_wave=None, max_valid_wave=None, **kwargs
+    ):
         """Draw effect-free observations for this object, extrapolating
         to wavelengths where the model is not defined.
 
@@ -342,6 +344,12 @@ class SEDModel(BasePhysicalModel):
             A length N array of wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        min_valid_wave : float, optional
+            The minimum wavelength at which the model can be evaluated (in angstroms).
+            If None, uses the model's minwave().
+        max_valid_wave : float, optional
+            The maximum wavelength at which the model can be evaluated (in angstroms).
+            If None, uses the model's maxwave().
         **kwargs : dict, optional
            Any additional keyword arguments.
 
@@ -351,12 +359,14 @@ class SEDModel(BasePhysicalModel):
             A length T x N matrix of SED values (in nJy).
         """
         min_query_wave = np.min(wavelengths)
-        min_valid_wave = self.minwave(graph_state=graph_state)
+        if min_valid_wave is None:
+            min_valid_wave = self.minwave(graph_state=graph_state)
         if min_valid_wave is None:
             min_valid_wave = min_query_wave
 
         max_query_wave = np.max(wavelengths)
-        max_valid_wave = self.maxwave(graph_state=graph_state)
+        if max_valid_wave is None:
+            max_valid_wave = self.maxwave(graph_state=graph_state)
         if max_valid_wave is None:
             max_valid_wave = max_query_wave
 
diff --git a/src/lightcurvelynx/models/redback_models.py b/src/lightcurvelynx/models/redback_models.py
index 24472f6..45edb0a 100644
--- a/src/lightcurvelynx/models/redback_models.py
+++ b/src/lightcurvelynx/models/redback_models.py
@@ -205,8 +205,17 @@ class RedbackWrapperModel(SEDModel, CiteClass):
         # need to use extrapolation if the wavelengths are out of bounds. The function
         # compute_sed_with_extrapolation() will trim the input wavelengths to be within the model's bounds
         # and call this function again. So the second call passes this bounds check and does not recurse.
-        if np.any(wavelengths < rb_result.minwave()) or np.any(wavelengths > rb_result.maxwave()):
-            return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
+        # The bounds depend on the parameters, so we pass along those of this source.
+        min_wave, max_wave = rb_result.minwave(), rb_result.maxwave()
+        if np.any(wavelengths < min_wave) or np.any(wavelengths > max_wave):
+            return self.compute_sed_with_extrapolation(
+                times,
+                wavelengths,
+                graph_state,
+                min_valid_wave=min_wave,
+                max_valid_wave=max_wave,
+                **kwargs,
+            )
 
         # Query the model and convert the output to nJy.
         model_flam = rb_result.get_flux_density(shifted_times, wavelengths)
-- 
2.43.0


From 935935abdbce717137f652cb5bf098d6f3b33ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:51 +0000
Subject: [PATCH 52/52] fix: pass the seed of a model to the samplers it makes
 (AGN, StaticSEDModel, StaticBandfluxModel, RandomMultiObjectModel,
 MultiLightcurveTemplateModel)

---
 src/lightcurvelynx/models/agn.py                       | 6 +++++-
 src/lightcurvelynx/models/lightcurve_template_model.py | 2 +-
 src/lightcurvelynx/models/multi_object_model.py        | 2 +-
 src/lightcurvelynx/models/static_sed_model.py          | 4 ++--
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 6efaa90..ab31828 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -119,7 +119,11 @@ class AGN(SEDModel):
         # Add the parameters for the AGN. t0 already set in BasePhysicalModel.
         self.add_parameter("blackhole_mass", blackhole_mass, **kwargs)
         self.add_parameter("edd_ratio", edd_ratio, **kwargs)
-        self.add_parameter("inclination_rad", NumpyRandomFunc("uniform", low=0, high=np.pi / 2.0), **kwargs)
+        self.add_parameter(
+            "inclination_rad",
+            NumpyRandomFunc("uniform", seed=seed, low=0, high=np.pi / 2.0),
+            **kwargs,
+        )
 
         # Add the derived parameters using FunctionNodes built from the object's static methods.
         # Each of these will be computed for each sample value of the input parameters.
diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e313287..742bdd4 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -801,7 +801,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
         super().__init__(passbands, filters=sorted(self.all_filters), **kwargs)
 
         all_inds = [i for i in range(len(lightcurves))]
-        self._sampler_node = GivenValueSampler(all_inds, weights=weights)
+        self._sampler_node = GivenValueSampler(all_inds, weights=weights, seed=kwargs.get("seed"))
         self.add_parameter("selected_lightcurve", value=self._sampler_node, allow_gradient=False)
 
         # Assemble a list of baseline values for each filter across all light curves.
diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2bfdba1..ad58b72 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -447,7 +447,7 @@ class RandomMultiObjectModel(MultiObjectModel):
         if len(object_names) != len(objects) or len(set(object_names)) != len(objects):
             raise ValueError("Each object must have its own unique name.")
         self.object_map = {name: src for name, src in zip(object_names, objects, strict=True)}
-        self._sampler_node = GivenValueSampler(object_names, weights=weights)
+        self._sampler_node = GivenValueSampler(object_names, weights=weights, seed=kwargs.get("seed"))
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
 
     def minwave(self, graph_state=None):
diff --git a/src/lightcurvelynx/models/static_sed_model.py b/src/lightcurvelynx/models/static_sed_model.py
index 02180d9..47adc90 100644
--- a/src/lightcurvelynx/models/static_sed_model.py
+++ b/src/lightcurvelynx/models/static_sed_model.py
@@ -63,7 +63,7 @@ class StaticSEDModel(SEDModel):
 
         # Create a parameter that indicates which SED was sampled in each simulation.
         all_inds = [i for i in range(len(self.sed_values))]
-        self._sampler_node = GivenValueSampler(all_inds, weights=weights)
+        self._sampler_node = GivenValueSampler(all_inds, weights=weights, seed=kwargs.get("seed"))
         self.add_parameter("selected_idx", value=self._sampler_node, allow_gradient=False)
 
     def __len__(self):
@@ -258,7 +258,7 @@ class StaticBandfluxModel(BandfluxModel):
 
         # Create a parameter that indicates which bandflux mapping was sampled in each simulation.
         all_inds = [i for i in range(len(self.bandflux_values))]
-        self._sampler_node = GivenValueSampler(all_inds, weights=weights)
+        self._sampler_node = GivenValueSampler(all_inds, weights=weights, seed=kwargs.get("seed"))
         self.add_parameter("selected_idx", value=self._sampler_node, allow_gradient=False)
 
     def __len__(self):
-- 
2.43.0

