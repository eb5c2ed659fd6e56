From 3098ab5bdbe572d9c22586cb9f305921cfa88827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 01/66] fix: register time_2_array and symmetric_taper as
 UVPSpec parameters

Two typos bound their descriptors to other names, so time_2_array was never
compared or cleared and symmetric_taper was dropped when writing to disk.
---
 src/hera_pspec/uvpspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index aa5ea7a..cc2760e 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -261,7 +261,7 @@ class UVPSpec:
             form="(Nbltpairs,)",
             expected_type=np.float64,
         )
-        self._time_1_array = PSpecParam(
+        self._time_2_array = PSpecParam(
             "time_2_array",
             description="Time array of the second bl in the bl-pair [Julian Date].",
             form="(Nbltpairs,)",
@@ -320,10 +320,10 @@ class UVPSpec:
             description="Form of data weighting used when forming power spectra.",
             expected_type=str,
         )
-        self.set_symmetric_taper = PSpecParam(
+        self._symmetric_taper = PSpecParam(
             "symmetric_taper",
             description="Specify whether Taper was applied symmetrically (True) or to the left(False).",
-            expected_type=str,
+            expected_type=bool,
         )
         self._norm = PSpecParam(
             "norm",
@@ -446,7 +446,6 @@ class UVPSpec:
             "label_2_array",
             "spw_dly_array",
             "spw_freq_array",
-            "symmetric_taper",
         ]
 
         # All parameters must fall into one and only one of the following
@@ -471,6 +470,7 @@ class UVPSpec:
             "norm",
             "norm_units",
             "taper",
+            "symmetric_taper",
             "cosmo",
             "beamfile",
             "folded",
-- 
2.43.0


From 806502491b5515cfb25f750ed82b184fb41aa1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 02/66] fix: UVPSpec equality compares every array and
 statistic

The comparison skipped stats_array, looked only at the first object's
dictionary keys, broadcast arrays of different shape, raised AttributeError
for an attribute only one object has, and used a relative tolerance that
equates different Julian dates, delays and integer baseline(-pair) codes.
---
 src/hera_pspec/uvpspec.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index cc2760e..d9d715a 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -49,6 +49,16 @@ def _normalize_spw_array_input(spw_array, valid_spws):
     return spw_values
 
 
+def _arrays_agree(a, b, rtol=1e-5, atol=0):
+    """Whether two arrays have the same shape and values (floats up to round-off)."""
+    a, b = np.asarray(a), np.asarray(b)
+    if a.shape != b.shape:
+        return False
+    if not (np.issubdtype(a.dtype, np.inexact) or np.issubdtype(b.dtype, np.inexact)):
+        return np.array_equal(a, b)
+    return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True).all()
+
+
 class UVPSpec:
     """
     An object for storing power spectra generated by hera_pspec and a file-format
@@ -2464,22 +2474,28 @@ class UVPSpec:
             params = self._all_params
         try:
             for p in params:
-                if p not in self._req_params and (
-                    not hasattr(self, p) and not hasattr(other, p)
-                ):
+                if not hasattr(self, p) and not hasattr(other, p):
                     continue
+                assert hasattr(self, p) and hasattr(other, p)
+                a, b = getattr(self, p), getattr(other, p)
                 if p in self._immutables:
-                    assert getattr(self, p) == getattr(other, p)
+                    assert a == b
                 elif p in self._ndarrays:
-                    if issubclass(getattr(self, p).dtype.type, str):
-                        assert np.all(getattr(self, p) == getattr(other, p))
+                    if p.startswith("time_"):
+                        # Julian dates: compare to better than a millisecond
+                        assert _arrays_agree(a, b, rtol=0, atol=1e-8)
                     else:
-                        assert np.isclose(getattr(self, p), getattr(other, p)).all()
+                        assert _arrays_agree(a, b, rtol=1e-8, atol=1e-14)
                 elif p in self._dicts:
-                    for i in getattr(self, p):
-                        assert np.isclose(
-                            getattr(self, p)[i], getattr(other, p)[i]
-                        ).all()
+                    assert a.keys() == b.keys()
+                    for i in a:
+                        assert _arrays_agree(a[i], b[i])
+                elif p in self._dicts_of_dicts:
+                    assert a.keys() == b.keys()
+                    for k in a:
+                        assert a[k].keys() == b[k].keys()
+                        for i in a[k]:
+                            assert _arrays_agree(a[k][i], b[k][i])
 
         except AssertionError:
             if verbose:
-- 
2.43.0


From c64f5db60b7cc3b2434ab5589c60f1ef97de0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 03/66] fix: a store that fails leaves the container as it was

Overwriting deleted the old spectrum before the new one was validated and
written, a failed first store left an unreadable empty entry (and group)
behind, and spectra stored in the reserved group 'header' were hidden.
---
 src/hera_pspec/container.py | 45 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index a680ea4..62e0bab 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -334,33 +334,34 @@ class PSpecContainer:
         key1 = "%s" % group
         key2 = "%s" % psname
 
-        # Check that the group exists
-        if key1 not in list(self.data.keys()):
-            grp = self.data.create_group(key1)
-        else:
-            grp = self.data[key1]
-
-        # Check that the psname exists
-        if key2 not in list(grp.keys()):
-            # Create group if it doesn't exist
-            psgrp = grp.create_group(key2)
-        else:
-            if overwrite:
-                # Delete group and recreate
-                del grp[key2]
-                psgrp = grp.create_group(key2)
-            else:
-                raise AttributeError(
-                    "Power spectrum %s/%s already exists and overwrite=False."
-                    % (key1, key2)
-                )
-
-        # Add power spectrum to this group
+        # The header group holds the container's own metadata
+        if key1 == "header":
+            raise ValueError("'header' is a reserved name; choose another group name.")
+
+        # Check whether the group and the psname exist
+        grp = self.data[key1] if key1 in list(self.data.keys()) else None
+        exists = grp is not None and key2 in list(grp.keys())
+        if exists and not overwrite:
+            raise AttributeError(
+                "Power spectrum %s/%s already exists and overwrite=False."
+                % (key1, key2)
+            )
+
+        # Write the power spectrum to an anonymous group, and link it into the
+        # file only once it is complete, so that a failed write changes nothing
+        psgrp = self.data.create_group(None)
         self._store_pspec(psgrp, pspec)
 
         # Store info about what kind of power spectra are in the group
         psgrp.attrs["pspec_type"] = pspec.__class__.__name__
 
+        # Put it in its place, replacing any existing power spectrum
+        if grp is None:
+            grp = self.data.create_group(key1)
+        if exists:
+            del grp[key2]
+        grp[key2] = psgrp
+
     @transactional
     def get_pspec(self, group, psname=None, **kwargs):
         """
-- 
2.43.0


From 6767a6541e33df9142315ab20356277b5f131a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 04/66] fix: merging spectra in a container touches only the
 intended ones

The merge list was found by substring, so the extensions of one data-set pair
also swallowed (and deleted) spectra of every pair whose name contains it, and
containers opened with keep_open=False could not be merged at all.
---
 src/hera_pspec/container.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 62e0bab..f2f1e8b 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -4,7 +4,6 @@ import warnings
 from functools import wraps
 
 import h5py
-import numpy as np
 
 from . import __version__, utils, uvpspec
 
@@ -362,6 +361,21 @@ class PSpecContainer:
             del grp[key2]
         grp[key2] = psgrp
 
+    @transactional
+    def _remove_pspec(self, group, psname):
+        """
+        Remove a power spectrum from the container.
+
+        Parameters
+        ----------
+        group : str
+            Which group the power spectrum belongs to.
+
+        psname : str
+            The name of the power spectrum to remove.
+        """
+        del self.data[group][psname]
+
     @transactional
     def get_pspec(self, group, psname=None, **kwargs):
         """
@@ -579,10 +593,10 @@ def combine_psc_spectra(
     # Iterate over groups
     for grp in groups:
         # Get spectra in this group
-        spectra = list(psc.data[grp].keys())
+        spectra = psc.spectra(grp)
 
         # Get unique spectra by splitting and then re-joining
-        unique_spectra = []
+        unique_spectra = {}
         for spc in spectra:
             if dset_split_str == "" or dset_split_str is None:
                 sp = spc.split(ext_split_str)[0]
@@ -591,11 +605,10 @@ def combine_psc_spectra(
                     [s.split(ext_split_str) for s in spc.split(dset_split_str)]
                 )[:2]
                 sp = dset_split_str.join(sp)
-            if sp not in unique_spectra:
-                unique_spectra.append(sp)
+            unique_spectra.setdefault(sp, []).append(spc)
 
         # Iterate over each unique spectra, and merge all spectra extensions
-        for spc in unique_spectra:
+        for spc, members in unique_spectra.items():
             # check for overwrite
             if spc in spectra and not overwrite:
                 if verbose:
@@ -605,9 +618,11 @@ def combine_psc_spectra(
                     )
                 continue
 
-            # get merge list
+            # get merge list: the spectrum itself and its extensions
             to_merge = [
-                spectra[i] for i in np.where([spc in _sp for _sp in spectra])[0]
+                _sp
+                for _sp in members
+                if _sp == spc or _sp.startswith(spc + ext_split_str)
             ]
             try:
                 # merge
@@ -623,7 +638,7 @@ def combine_psc_spectra(
                 # if successful merge, remove uvps
                 for uvp_name in to_merge:
                     if uvp_name != spc:
-                        del psc.data[grp][uvp_name]
+                        psc._remove_pspec(grp, uvp_name)
             except Exception as exc:
                 # merge failed, so continue
                 if verbose:
-- 
2.43.0


From b871de75ca902e7d95420bf20f45a55aa75a55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 05/66] fix: select slices dataset labels, frequency counts and
 metadata-only beam areas consistently

---
 src/hera_pspec/uvpspec_utils.py | 80 ++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 465dd15..07c20d2 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -530,6 +530,23 @@ def _get_blpairs_from_bls(uvp, bls, only_pairs_in_bls=False):
     return blp_select
 
 
+def _slice_labels(uvp, index):
+    """
+    Apply an index to the dataset-label arrays of a UVPSpec object in place.
+
+    Parameters
+    ----------
+    uvp : UVPSpec object
+        Object whose label_1_array and label_2_array (if any) are sliced.
+
+    index : tuple
+        Index into an array of shape (Nspws, Nbltpairs, Npols).
+    """
+    for name in ("label_1_array", "label_2_array"):
+        if hasattr(uvp, name):
+            setattr(uvp, name, getattr(uvp, name)[index])
+
+
 def _select(
     uvp,
     spws=None,
@@ -588,8 +605,9 @@ def _select(
     if spws is not None:
         # Get info for each spw that will be retained
         spw_freq_select = uvp.spw_to_freq_indices(spws)
-        spw_dly_select = uvp.spw_to_dly_indices(spws)
         spw_select = uvp.spw_indices(spws)
+        # NB the delay axis is kept whole, as are the data, even if folded
+        spw_dly_select = np.isin(uvp.spw_dly_array, uvp.spw_array[spw_select])
         uvp.spw_freq_array = uvp.spw_freq_array[spw_freq_select]
         uvp.spw_dly_array = uvp.spw_dly_array[spw_dly_select]
 
@@ -600,24 +618,23 @@ def _select(
         uvp.spw_array = uvp.spw_array[spw_select]
         uvp.freq_array = uvp.freq_array[spw_freq_select]
         uvp.dly_array = uvp.dly_array[spw_dly_select]
+        uvp.Nfreqs = len(np.unique(uvp.freq_array))
         uvp.Ndlys = len(np.unique(uvp.dly_array))
         uvp.Nspws = len(np.unique(uvp.spw_array))
         uvp.Nspwdlys = len(uvp.spw_dly_array)
         uvp.Nspwfreqs = len(uvp.spw_freq_array)
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[spw_select, :]
+        _slice_labels(uvp, np.s_[spw_select, :, :])
 
         # Down-convert spw indices such that spw_array == np.arange(Nspws)
         for i in range(uvp.Nspws):
             if i in uvp.spw_array:
                 continue
             spw = np.min(uvp.spw_array[uvp.spw_array > i])
-            spw_freq_select = uvp.spw_to_freq_indices(spw)
-            spw_dly_select = uvp.spw_to_dly_indices(spw)
-            spw_select = uvp.spw_indices(spw)
-            uvp.spw_freq_array[spw_freq_select] = i
-            uvp.spw_dly_array[spw_dly_select] = i
-            uvp.spw_array[spw_select] = i
+            uvp.spw_freq_array[uvp.spw_freq_array == spw] = i
+            uvp.spw_dly_array[uvp.spw_dly_array == spw] = i
+            uvp.spw_array[uvp.spw_array == spw] = i
 
     if bls is not None:
         # get blpair baselines in integer form
@@ -686,7 +703,7 @@ def _select(
         uvp.lst_1_array = uvp.lst_1_array[blp_select]
         uvp.lst_2_array = uvp.lst_2_array[blp_select]
         uvp.lst_avg_array = uvp.lst_avg_array[blp_select]
-        uvp.Ntpairs = len(np.unique(uvp.time_avg_array))
+        uvp.Ntpairs = len(set(zip(uvp.time_1_array, uvp.time_2_array)))
         uvp.Nblpairs = len(np.unique(uvp.blpair_array))
         uvp.Nbltpairs = len(uvp.blpair_array)
         uvp.Ntimes = uvp.Ntpairs
@@ -701,6 +718,7 @@ def _select(
         uvp.bl_array = uvp.bl_array[bl_select]
         uvp.bl_vecs = uvp.bl_vecs[bl_select]
         uvp.Nbls = len(uvp.bl_array)
+        _slice_labels(uvp, np.s_[:, blp_select, :])
 
     if polpairs is not None:
         # assert form
@@ -742,6 +760,7 @@ def _select(
         uvp.Npols = len(uvp.polpair_array)
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[:, polpair_select]
+        _slice_labels(uvp, np.s_[:, :, polpair_select])
     else:
         polpair_select = slice(None)
 
@@ -921,30 +940,27 @@ def _select(
             uvp.cov_array_real = cov_real
             uvp.cov_array_imag = cov_imag
 
-        # downselect on other attrs
-        if hasattr(uvp, "OmegaP"):
-            uvp.OmegaP = uvp.OmegaP[:, polpair_select]
-            uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
-
-        # select r_params based on new bl_array
-        blp_keys = uvp.get_all_keys()
-        blkeys = []
-        for blpkey in blp_keys:
-            key1 = blpkey[1][0] + (blpkey[2][0],)
-            key2 = blpkey[1][1] + (blpkey[2][1],)
-            if key1 not in blkeys:
-                blkeys += [key1]
-            if key2 not in blkeys:
-                blkeys += [key2]
-        new_r_params = {}
-        if hasattr(uvp, "r_params") and uvp.r_params != "":
-            r_params = uvp.get_r_params()
-            for rpkey in r_params:
-                if rpkey in blkeys:
-                    new_r_params[rpkey] = r_params[rpkey]
-        else:
-            new_r_params = {}
-        uvp.r_params = compress_r_params(new_r_params)
+    # downselect on other attrs
+    if hasattr(uvp, "OmegaP"):
+        uvp.OmegaP = uvp.OmegaP[:, polpair_select]
+        uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
+
+    # select r_params based on the new baselines and polarizations
+    if not hasattr(uvp, "r_params"):
+        uvp.r_params = ""
+    narrowed = [x is not None for x in (bls, blpairs, times, lsts, polpairs)]
+    if uvp.r_params != "" and any(narrowed):
+        blkeys = set()
+        for _, blp, pols in uvp.get_all_keys():
+            blkeys.update(bl + (pol,) for bl, pol in zip(blp, pols))
+        # keys are (ant1, ant2, pol), possibly preceded by a dataset index
+        uvp.r_params = compress_r_params(
+            {
+                rpkey: rp
+                for rpkey, rp in uvp.get_r_params().items()
+                if tuple(rpkey[-3:]) in blkeys
+            }
+        )
 
 
 def _blpair_to_antnums(blpair):
-- 
2.43.0


From ec12d37ef85a22eb9782f58f349ff58a61f91708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 06/66] fix: combining spectra keeps axes, times, window grids
 and beam areas with their cells

---
 src/hera_pspec/uvpspec.py       | 127 +++++++++++++++++++-------------
 src/hera_pspec/uvpspec_utils.py |  28 +++----
 2 files changed, 85 insertions(+), 70 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index d9d715a..1d3115d 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3084,47 +3084,65 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # Loop over new spectral windows and setup arrays
     for i, spw in enumerate(new_spws):
+        # get index of this new spw in uvps and its spw index
+        l = [spw in _u for _u in uvp_spws].index(True)
+        m = uvp_spws[l].index(spw)
+        # NB data of folded spectra keep their whole delay axis
+        Ndlys = uvps[l].data_array[m].shape[1]
+
         # Initialize new arrays
-        u.data_array[i] = np.empty((Nbltpairs, spw[3], Npols), np.complex128)
+        u.data_array[i] = np.empty((Nbltpairs, Ndlys, Npols), np.complex128)
         u.integration_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         u.wgt_array[i] = np.empty((Nbltpairs, spw[2], 2, Npols), np.float64)
         # spw[2] == Nfreqs (wgt_array is not resampled if Ndlys != Nfreqs,
         # so needs to keep this shape)
         u.nsample_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         if store_window:
-            l = [spw in _u for _u in uvp_spws].index(True)
-            m = [spw == _spw for _spw in uvp_spws[l]].index(True)
+            u.window_function_array[i] = np.empty(
+                (Nbltpairs, *uvps[l].window_function_array[m].shape[1:-1], Npols),
+                np.float64,
+            )
             if exact_windows:
-                Nkperp = uvps[l].window_function_kperp[m][:, 0].size
-                Nkpara = uvps[l].window_function_kpara[m][:, 0].size
-                u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
+                # k grids only depend on spectral window and polarization
+                grids = []
+                for p in new_polpairs:
+                    n = [
+                        p in pp and spw in ss
+                        for pp, ss in zip(uvp_polpairs, uvp_spws)
+                    ].index(True)
+                    grids.append((n, uvp_spws[n].index(spw), uvp_polpairs[n].index(p)))
+                u.window_function_kperp[i] = np.stack(
+                    [uvps[n].window_function_kperp[w][:, q] for n, w, q in grids], axis=1
                 )
-            else:
-                Nkpar = uvps[l].window_function_array[m].shape[2]
-                u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkpar, Npols), np.float64
+                u.window_function_kpara[i] = np.stack(
+                    [uvps[n].window_function_kpara[w][:, q] for n, w, q in grids], axis=1
                 )
         if store_cov:
             u.cov_array_real[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
             u.cov_array_imag[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
         if store_stats:
             for stat in stored_stats:
                 u.stats_array[stat][i] = np.empty(
-                    (Nbltpairs, spw[3], Npols), np.complex128
+                    (Nbltpairs, Ndlys, Npols), np.complex128
                 )
 
-    # Set frequencies and delays: if concat_ax == 'spw' this is changed below
-    # assumes spw metadata are the same for all uvps
-    u.spw_array = uvps[0].spw_array.copy()
-    u.spw_freq_array = uvps[0].spw_freq_array.copy()
-    u.spw_dly_array = uvps[0].spw_dly_array.copy()
-    u.freq_array = uvps[0].freq_array.copy()
-    u.dly_array = uvps[0].dly_array.copy()
+        # Set frequencies and delays
+        spw_freq_inds = uvps[l].spw_freq_array == m
+        spw_dly_inds = uvps[l].spw_dly_array == m
+        u.freq_array.extend(uvps[l].freq_array[spw_freq_inds])
+        u.dly_array.extend(uvps[l].dly_array[spw_dly_inds])
+        u.spw_freq_array.extend([i] * np.count_nonzero(spw_freq_inds))
+        u.spw_dly_array.extend([i] * np.count_nonzero(spw_dly_inds))
+
+    u.spw_array = np.arange(Nspws, dtype=np.int32)
+    u.spw_freq_array = np.array(u.spw_freq_array)
+    u.spw_dly_array = np.array(u.spw_dly_array)
+    u.freq_array = np.array(u.freq_array)
+    u.dly_array = np.array(u.dly_array)
     u.Nfreqs = len(np.unique(u.freq_array))
     u.Nspwfreqs = len(u.spw_freq_array)
     u.Ndlys = len(np.unique(u.dly_array))
@@ -3186,30 +3204,14 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # fill in data arrays depending on concat ax
     if concat_ax == "spw":
-        u.spw_array = np.arange(Nspws, dtype=np.int32)
-        freq_array, dly_array = [], []
-        spw_freq_array, spw_dly_array = [], []
-
         # Concatenate spectral windows
         for i, spw in enumerate(new_spws):
             # get index of this new spw in uvps and its spw index
             l = [spw in _u for _u in uvp_spws].index(True)
             m = [spw == _spw for _spw in uvp_spws[l]].index(True)
 
-            # freq metadata
-            spw_freq_inds = np.where(uvps[l].spw_freq_array == m)[0]
-            freq_array.extend(uvps[l].freq_array[spw_freq_inds])
-            spw_freq_array.extend(np.ones(len(spw_freq_inds), dtype=np.int32) * i)
-
-            # dly metadata
-            spw_dly_inds = np.where(uvps[l].spw_dly_array == m)[0]
-            dly_array.extend(uvps[l].dly_array[spw_dly_inds])
-            spw_dly_array.extend(np.ones(len(spw_dly_inds), dtype=np.int32) * i)
-
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if i == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over polarizations
             for k, p in enumerate(new_polpairs):
@@ -3248,16 +3250,8 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                                 m
                             ][n, :, q]
 
-        u.freq_array = np.array(freq_array)
-        u.dly_array = np.array(dly_array)
-        u.spw_freq_array = np.array(spw_freq_array)
-        u.spw_dly_array = np.array(spw_dly_array)
-        u.Nfreqs = len(np.unique(u.freq_array))
-        u.Nspwfreqs = len(u.spw_freq_array)
-        u.Ndlys = len(np.unique(u.dly_array))
-        u.Nspwdlys = len(u.spw_dly_array)
-
         # Populate new LST, time, and blpair arrays
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
@@ -3332,8 +3326,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             # Get mapping of blpair-time indices between old UVPSpec objects
             # and the new one
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if k == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over spectral windows
             for i, spw in enumerate(new_spws):
@@ -3369,6 +3361,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     u.label_1_array[i, j, k] = u_lbls[uvps[l].labels[lbl1]]
                     u.label_2_array[i, j, k] = u_lbls[uvps[l].labels[lbl2]]
 
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
@@ -3409,6 +3402,16 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     for k in static_meta.keys():
         setattr(u, k, static_meta[k])
 
+    # Beam integrals of each polarization pair
+    owners = [[p in pp for pp in uvp_polpairs].index(True) for p in new_polpairs]
+    for k in ("OmegaP", "OmegaPP"):
+        if k in static_meta:
+            columns = [
+                getattr(uvps[l], k)[:, uvp_polpairs[l].index(p)]
+                for l, p in zip(owners, new_polpairs)
+            ]
+            setattr(u, k, np.stack(columns, axis=1))
+
     # Run check to make sure the new UVPSpec object is valid
     u.check()
 
@@ -3529,6 +3532,7 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
         "beamfile",
         "norm",
         "taper",
+        "symmetric_taper",
         "vis_units",
         "norm_units",
         "folded",
@@ -3538,7 +3542,8 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
     for m in static_meta:
         for u in uvps[1:]:
             if hasattr(uvps[0], m) and hasattr(u, m):
-                assert uvps[0].__eq__(u, params=[m]), (
+                # beam integrals are compared per polarization below
+                assert m in ("OmegaP", "OmegaPP") or uvps[0].__eq__(u, params=[m]), (
                     f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
                 )
             else:
@@ -3555,6 +3560,16 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
         ]
     )
 
+    # polarization pairs may be in different places (or objects)
+    for m in ("OmegaP", "OmegaPP"):
+        if m in static_meta:
+            omegas = {}
+            for u in uvps:
+                for p, omega in zip(u.polpair_array, getattr(u, m).T):
+                    assert _arrays_agree(omegas.setdefault(p, omega), omega), (
+                        f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
+                    )
+
     # create unique data axis lists
     unique_spws = []
     unique_blpts = []
@@ -3640,10 +3655,16 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
 
     # perform additional checks given concat ax
     if concat_ax == "blpairts":
-        # check scalar_array
-        assert np.all(
-            [np.isclose(uvps[0].scalar_array, u.scalar_array) for u in uvps[1:]]
-        ), (
+        # check scalar_array, whatever the order of spws and polpairs
+        scalars = [
+            {
+                (s, p): u.scalar_array[i, j]
+                for i, s in enumerate(u.get_spw_ranges())
+                for j, p in enumerate(u.polpair_array)
+            }
+            for u in uvps
+        ]
+        assert np.all([np.isclose(scalars[0][k], s[k]) for s in scalars for k in s]), (
             "scalar_array must be the same for all uvps given "
             "concatenation along blpairts."
         )
diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 07c20d2..a293a35 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -1200,12 +1200,12 @@ def _fast_lookup_blpairts(src_blpts, query_blpts, time_prec=8):
     Parameters
     ----------
     src_blpts : list of tuples or array_like
-        List of tuples or array of shape (N, 2), containing a list of (blpair,
-        time) couplets.
+        List of tuples or array of shape (N, 2) or (N, 3), containing a list of
+        (blpair, time) couplets or (blpair, time1, time2) triplets.
 
     query_blpts : list of tuples or array_like
-        List of tuples or array of shape (M, 2), containing a list of (blpair,
-        time) couplets that you want to find the indices of in source_blpts.
+        List of tuples or array of shape (M, 2) or (M, 3), containing a list of
+        couplets or triplets that you want to find the indices of in source_blpts.
 
     time_prec : int, optional
         Number of decimals to round time array to when performing float
@@ -1217,19 +1217,13 @@ def _fast_lookup_blpairts(src_blpts, query_blpts, time_prec=8):
         Array of integers of size (M,), which are indices in the source_blpts
         array for each item in query_blpts.
     """
-    # This function works by using a small hack -- the blpair-times are turned
-    # into complex numbers of the form (blpair + 1.j*time), allowing numpy
-    # array lookup functions to be used
-    src_blpts = np.asarray(src_blpts)
-    query_blpts = np.asarray(query_blpts)
-
-    src_blpts = src_blpts[:, 0] + 1.0j * np.around(src_blpts[:, 1], time_prec)
-    query_blpts = query_blpts[:, 0] + 1.0j * np.around(query_blpts[:, 1], time_prec)
-    # Applies rounding to time values to ensure reliable float comparisons
-
-    # Do np.where comparison for all new_blpts
-    # (indices stored in second array returned by np.where)
-    blpts_idxs = np.where(src_blpts == query_blpts[:, np.newaxis])[1]
+    # Apply rounding to time values to ensure reliable float comparisons
+    src, query = (
+        [(int(x[0]), *(np.around(t, time_prec) for t in x[1:])) for x in blpts]
+        for blpts in (src_blpts, query_blpts)
+    )
+    index = {x: i for i, x in reversed(list(enumerate(src)))}
+    blpts_idxs = np.array([index[x] for x in query if x in index], dtype=int)
 
     return blpts_idxs
 
-- 
2.43.0


From 287fe4f22174b922d79e3d239ae093febb447e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 07/66] fix: folding keeps data finite and returns exact window
 functions whole

---
 src/hera_pspec/grouping.py |  4 ++--
 src/hera_pspec/uvpspec.py  | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index c26d9ba..7e989c2 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1529,7 +1529,7 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
+                    uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
         else:
             # odd number of dlys
@@ -1614,7 +1614,7 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
+                    uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
     uvp.folded = True
 
diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 1d3115d..94dc07b 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -677,12 +677,14 @@ class UVPSpec:
         # if data has been folded, return only positive delays
         if self.folded:
             Ndlys = np.count_nonzero(self.spw_dly_array == spw)
-            return self.window_function_array[spw][
-                blpairts,
-                -(Ndlys - Ndlys // 2 - 1) :,
-                -(Ndlys - Ndlys // 2 - 1) :,
-                polpair,
+            windows = self.window_function_array[spw][
+                blpairts, -(Ndlys - Ndlys // 2 - 1) :, ..., polpair
             ]
+            if self.exact_windows:
+                # exact window functions are not folded along k_perp, k_para
+                return windows
+            Nkpar = windows.shape[2]
+            return windows[:, :, -(Nkpar - Nkpar // 2 - 1) :]
         else:
             return self.window_function_array[spw][blpairts, ..., polpair]
 
-- 
2.43.0


From 77f4d169c9895afa46425a9274f6ebdc7b8dbbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 08/66] fix: complex statistics keep their imaginary part;
 delay cuts work on folded spectra; times match exactly

---
 src/hera_pspec/uvpspec.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 94dc07b..46f5876 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1152,6 +1152,13 @@ class UVPSpec:
                 ]
             )
 
+        # a complex statistic does not fit into an array of real values
+        if np.iscomplexobj(statistic) and not np.iscomplexobj(
+            self.stats_array[stat][spw]
+        ):
+            for i in self.stats_array[stat]:
+                self.stats_array[stat][i] = self.stats_array[stat][i].astype(dtype)
+
         self.stats_array[stat][spw][blpairts, :, polpair] = statistic
 
     def set_stats_slice(self, stat, m, b, above=False, val=1e20):
@@ -1177,8 +1184,8 @@ class UVPSpec:
         bllens = self.get_blpair_seps()
         # iterate over spws
         for i in range(self.Nspws):
-            # get this spw dlys
-            dlys = self.get_dlys(i) * 1e9
+            # get this spw dlys (all of them, also if folded)
+            dlys = self.dly_array[self.spw_dly_array == i] * 1e9
             # iterate over blpairs
             for blp in blpairs:
                 # get time-blpair inds
@@ -1533,7 +1540,7 @@ class UVPSpec:
             Contains indices at which selection is satisfied along the
             blpairts axis.
         """
-        time_select = np.isclose(self.time_avg_array, time, rtol=1e-10)
+        time_select = np.isclose(self.time_avg_array, time, rtol=0, atol=1e-6)
         if blpairs is None:
             return np.arange(self.Nbltpairs)[time_select]
         else:
-- 
2.43.0


From 750ac9ccdf2a3a97e9fb1e61b022a2683742c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 09/66] fix: average_spectra applies fractional baseline-pair
 weights

Normalized weights were truncated to integers, and normalize_weights=False
still multiplied them by the size of the group.
---
 src/hera_pspec/grouping.py | 40 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 7e989c2..5c0cb13 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -398,15 +398,16 @@ def average_spectra(
                 # calculated so that Sum (blpair wgts) = no. baselines.
                 if blpair_weights is not None:
                     blpg_wgts = np.array(blpair_weights[j])
-                    norm = np.sum(blpg_wgts) if normalize_weights else 1.0
+                    norm = np.sum(blpg_wgts)
 
                     if norm <= 0.0:
                         raise ValueError(
                             "Sum of baseline-pair weights in group %d is <= 0." % j
                         )
-                    blpg_wgts = (
-                        blpg_wgts * float(blpg_wgts.size) / norm
-                    )  # Apply normalization
+                    if normalize_weights:
+                        blpg_wgts = (
+                            blpg_wgts * float(blpg_wgts.size) / norm
+                        )  # Apply normalization
                 else:
                     blpg_wgts = np.ones(len(blpg))
 
@@ -514,34 +515,37 @@ def average_spectra(
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
                         # as weights.
-                    # Add multiple copies of data for each baseline according
-                    # to the weighting/multiplicity;
-                    # while multiple copies are only added when bootstrap resampling
-                    for m in range(int(blpg_wgts[k])):
-                        bpg_data.append(data * w)
-                        bpg_wgts.append(wgts * w[:, :1, None])
-                        bpg_ints.append(ints * w)
-                        bpg_nsmp.append(nsmp)
+                    # Count the data of each baseline-pair according to its
+                    # weight, i.e. its (possibly fractional) multiplicity: it
+                    # is an integer when bootstrap resampling
+                    mult = blpg_wgts[k]
+                    if mult > 0:
+                        bpg_data.append(mult * data * w)
+                        bpg_wgts.append(mult * wgts * w[:, :1, None])
+                        bpg_ints.append(mult * ints * w)
+                        bpg_nsmp.append(mult * nsmp)
                         for stat in stat_l:
                             # clip errws for same reason above
-                            bpg_stats[stat].append(errws[stat].clip(0, 1e40) * w**2)
+                            bpg_stats[stat].append(
+                                mult * errws[stat].clip(0, 1e40) * w**2
+                            )
                         if store_window:
                             if uvp.exact_windows:
                                 bpg_window_function.append(
-                                    window_function * w[:, :, None, None]
+                                    mult * window_function * w[:, :, None, None]
                                 )
                             else:
                                 bpg_window_function.append(
-                                    window_function * w[:, :, None]
+                                    mult * window_function * w[:, :, None]
                                 )
                         if store_cov:
                             bpg_cov_real.append(
-                                cov_real * w[:, :, None] * w[:, None, :]
+                                mult * cov_real * w[:, :, None] * w[:, None, :]
                             )
                             bpg_cov_imag.append(
-                                cov_imag * w[:, :, None] * w[:, None, :]
+                                mult * cov_imag * w[:, :, None] * w[:, None, :]
                             )
-                        w_list.append(w)
+                        w_list.append(mult * w)
 
                 # normalize sum: clip to deal with w_list_sum == 0
                 w_list_sum = np.sum(w_list, axis=0).clip(1e-40, np.inf)
-- 
2.43.0


From 8008c7454dd5c3348035cd1e8ee442b4b47732f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 10/66] fix: average_spectra keeps labels, small errors and
 exact windows right

Exact window functions were not divided by the sum of the weights, label
arrays kept the rows from before the averaging, errors below 1e-4 became
infinite, and an undefined error of zero weight spoiled the average.
---
 src/hera_pspec/grouping.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 5c0cb13..86beee1 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -505,12 +505,15 @@ def average_spectra(
                             )[None]
                         for stat in stat_l:
                             # clip errws to eliminate nan: inf * 0 yields nans
-                            weighted_errws = errws[stat].clip(0, 1e40) * w**2
+                            # (and likewise for an undefined error of zero weight)
+                            weighted_errws = np.where(
+                                w == 0, 0, errws[stat].clip(0, 1e40) * w**2
+                            )
                             errws[stat] = (np.sum(weighted_errws, axis=0) / wsum**2)[
                                 None
                             ]
-                            # set near-zero errws to inf, as they should be
-                            errws[stat][np.isclose(errws[stat], 0)] = np.inf
+                            # set zero errws to inf, as they should be
+                            errws[stat][errws[stat] == 0] = np.inf
                         w = np.sum(w, axis=0)[None]
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
@@ -527,7 +530,11 @@ def average_spectra(
                         for stat in stat_l:
                             # clip errws for same reason above
                             bpg_stats[stat].append(
-                                mult * errws[stat].clip(0, 1e40) * w**2
+                                np.where(
+                                    w == 0,
+                                    0,
+                                    mult * errws[stat].clip(0, 1e40) * w**2,
+                                )
                             )
                         if store_window:
                             if uvp.exact_windows:
@@ -566,13 +573,16 @@ def average_spectra(
                     )
                 for stat in stat_l:
                     stat_avg = np.sum(bpg_stats[stat], axis=0) / w_list_sum**2
-                    # set near-zero stats to inf, as they should be
-                    stat_avg[np.isclose(stat_avg, 0)] = np.inf
+                    # set zero stats to inf, as they should be
+                    stat_avg[stat_avg == 0] = np.inf
                     # take sqrt to get back to stat units
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
                     if uvp.exact_windows:
-                        bpg_window_function = np.sum(bpg_window_function, axis=0)
+                        bpg_window_function = (
+                            np.sum(bpg_window_function, axis=0)
+                            / w_list_sum[:, :, None, None]
+                        )
                     else:
                         bpg_window_function = (
                             np.sum(bpg_window_function, axis=0) / w_list_sum[:, :, None]
@@ -625,10 +635,12 @@ def average_spectra(
     time_1, time_2, time_avg_arr = [], [], []
     lst_1, lst_2, lst_avg_arr = [], [], []
     blpair_arr, bl_arr = [], []
+    label_inds = []
 
     for i, blpg in enumerate(blpair_groups):
         # Get blpairts indices for zeroth blpair in this group
         blpairts = uvp.blpair_to_indices(blpg[0])
+        label_inds.extend(blpairts[:1] if time_avg else blpairts)
 
         # Assign meta-data
         bl_arr.extend(list(uvputils._blpair_to_bls(blpg[0])))
@@ -671,6 +683,10 @@ def average_spectra(
     uvp.bl_vecs = bl_vecs
     uvp.blpair_array = np.array(blpair_arr)
 
+    # Labels
+    uvp.label_1_array = uvp.label_1_array[:, label_inds]
+    uvp.label_2_array = uvp.label_2_array[:, label_inds]
+
     # Times
     uvp.time_1_array = np.array(time_1)
     uvp.time_2_array = np.array(time_2)
-- 
2.43.0


From 848f3ea3454544f3daba27fd315442dc3193b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 11/66] fix: average_spectra keeps the delay axes of folded
 spectra

Only the positive delays were left in the arrays, so that the window
function (and anything indexed by the delay axis) could not be read.
---
 src/hera_pspec/grouping.py | 44 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 86beee1..0f8fd1a 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -153,6 +153,31 @@ def sample_baselines(bls, seed=None):
     return [random.choice(bls) for i in range(len(bls))]
 
 
+def _pad_folded(folded_array, full_array, fill=0.0):
+    """
+    Restore the non-positive delays of an array formed from the positive delays
+    of folded spectra, so that it has the delay axes of the original array.
+
+    Parameters
+    ----------
+    folded_array : ndarray
+        Array of shape (Nbltpairs, Npositive, ...).
+    full_array : ndarray
+        Array with the complete delay axes (and any number of rows).
+    fill : float, optional
+        Value assigned to the non-positive delays. Default: 0.
+
+    Returns
+    -------
+    array : ndarray
+        folded_array, filled up in front along its delay axes.
+    """
+    pad = [(0, 0)] + [
+        (n - m, 0) for n, m in zip(full_array.shape[1:], folded_array.shape[1:])
+    ]
+    return np.pad(folded_array, pad, constant_values=fill)
+
+
 def average_spectra(
     uvp_in,
     blpair_groups=None,
@@ -631,6 +656,25 @@ def average_spectra(
             cov_array_real[spw] = np.moveaxis(np.array(spw_cov_real), 0, -1)
             cov_array_imag[spw] = np.moveaxis(np.array(spw_cov_imag), 0, -1)
 
+        # Folded spectra keep their (empty) non-positive delays
+        if uvp.folded:
+            data_array[spw] = _pad_folded(data_array[spw], uvp.data_array[spw])
+            for stat in stat_l:
+                stats_array[stat][spw] = _pad_folded(
+                    stats_array[stat][spw], uvp.stats_array[stat][spw], fill=np.nan
+                )
+            if store_window:
+                window_function_array[spw] = _pad_folded(
+                    window_function_array[spw], uvp.window_function_array[spw]
+                )
+            if store_cov:
+                cov_array_real[spw] = _pad_folded(
+                    cov_array_real[spw], uvp.cov_array_real[spw]
+                )
+                cov_array_imag[spw] = _pad_folded(
+                    cov_array_imag[spw], uvp.cov_array_imag[spw]
+                )
+
     # Iterate over blpair groups one more time to assign metadata
     time_1, time_2, time_avg_arr = [], [], []
     lst_1, lst_2, lst_avg_arr = [], [], []
-- 
2.43.0


From 4ea30b3fce86dec09bfe13ac24f4e304ac6336ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 12/66] fix: select_common narrows the polarization pairs

The common polarization pairs were found but never selected.
---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index a293a35..2e15ca1 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -365,7 +365,7 @@ def select_common(
         if lsts:
             _lsts = common_lsts
         if polpairs:
-            _pols = common_polpairs
+            _polpairs = common_polpairs
         if spws:
             _spws = [uvp.get_spw_ranges().index(j) for j in common_spws]
 
-- 
2.43.0


From 57f484be4f9ecd440345abac77b1f8ec6424161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 13/66] fix: convert_to_deltasq works on folded spectra

The wavevectors of the positive delays only did not fit the arrays.
---
 src/hera_pspec/uvpspec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 46f5876..c436a73 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1230,7 +1230,9 @@ class UVPSpec:
         for spw in range(uvp.Nspws):
             # get k vectors
             k_perp = uvp.get_kperps(spw, little_h=little_h)
-            k_para = uvp.get_kparas(spw, little_h=little_h)
+            # (all delays: folded spectra keep the non-positive ones)
+            dlys = uvp.dly_array[uvp.spw_dly_array == spw]
+            k_para = uvp.get_kparas(spw, little_h=little_h, dlys=dlys)
             k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
             # shape of (Nbltpairs, spw_Ndlys, Npols)
             coeff = k_mag**3 / (2 * np.pi**2)
-- 
2.43.0


From 75de1e40d405e6242df09a3872d7e3d2c7c6d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 14/66] fix: subtract_uvp matches integrations by LST

Rows were matched by their order only, whatever their LSTs, polarizations
were taken from the first object only, covariances were propagated only in
the presence of statistics, and folded spectra could not be subtracted.
---
 src/hera_pspec/uvpspec_utils.py | 89 +++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 37 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 2e15ca1..ad96a41 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -53,6 +53,19 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
     polpairs1 = uvp1.polpair_array.tolist()
     blps1 = sorted(set(uvp1.blpair_array))
     spws2 = [spw for spw in uvp2.get_spw_ranges()]
+    polpairs2 = uvp2.polpair_array.tolist()
+
+    # match the integrations of each baseline-pair by their LST
+    blp_inds = {}
+    for blp in blps1:
+        inds1, inds2 = uvp1.blpair_to_indices(blp), uvp2.blpair_to_indices(blp)
+        inds1 = inds1[np.argsort(uvp1.lst_avg_array[inds1], kind="stable")]
+        inds2 = inds2[np.argsort(uvp2.lst_avg_array[inds2], kind="stable")]
+        if not np.array_equal(uvp1.lst_avg_array[inds1], uvp2.lst_avg_array[inds2]):
+            raise ValueError(
+                f"Cannot subtract: the LSTs of baseline-pair {blp} do not match."
+            )
+        blp_inds[blp] = (inds1, inds2)
 
     # iterate over spws
     for i, spw in enumerate(spws1):
@@ -61,76 +74,78 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
 
         # iterate over pol
         for j, polpair in enumerate(polpairs1):
+            # get uvp2 index
+            j2 = polpairs2.index(polpair)
+
             # iterate over blp
             for k, blp in enumerate(blps1):
-                # form keys
-                key1 = (i, blp, polpair)
-                key2 = (i2, blp, polpair)
+                # rows of this baseline-pair
+                inds1, inds2 = blp_inds[blp]
 
                 # subtract data
-                blp1_inds = uvp1.blpair_to_indices(blp)
-                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.get_data(key2)
+                uvp1.data_array[i][inds1, :, j] -= uvp2.data_array[i2][inds2, :, j2]
 
                 # add nsample inversely in quadrature
-                uvp1.nsample_array[i][blp1_inds, j] = np.sqrt(
+                uvp1.nsample_array[i][inds1, j] = np.sqrt(
                     1.0
                     / (
-                        1.0 / uvp1.get_nsamples(key1) ** 2
-                        + 1.0 / uvp2.get_nsamples(key2) ** 2
+                        1.0 / uvp1.nsample_array[i][inds1, j] ** 2
+                        + 1.0 / uvp2.nsample_array[i2][inds2, j2] ** 2
                     )
                 )
 
                 # add integration inversely in quadrature
-                uvp1.integration_array[i][blp1_inds, j] = np.sqrt(
+                uvp1.integration_array[i][inds1, j] = np.sqrt(
                     1.0
                     / (
-                        1.0 / uvp1.get_integrations(key1) ** 2
-                        + 1.0 / uvp2.get_integrations(key2) ** 2
+                        1.0 / uvp1.integration_array[i][inds1, j] ** 2
+                        + 1.0 / uvp2.integration_array[i2][inds2, j2] ** 2
                     )
                 )
 
                 # add wgts inversely in quadrature
-                uvp1.wgt_array[i][blp1_inds, :, :, j] = np.sqrt(
+                uvp1.wgt_array[i][inds1, :, :, j] = np.sqrt(
                     1.0
-                    / (1.0 / uvp1.get_wgts(key1) ** 2 + 1.0 / uvp2.get_wgts(key2) ** 2)
+                    / (
+                        1.0 / uvp1.wgt_array[i][inds1, :, :, j] ** 2
+                        + 1.0 / uvp2.wgt_array[i2][inds2, :, :, j2] ** 2
+                    )
                 )
-                uvp1.wgt_array[i][blp1_inds, :, :, j] /= uvp1.wgt_array[i][
-                    blp1_inds, :, :, j
+                uvp1.wgt_array[i][inds1, :, :, j] /= uvp1.wgt_array[i][
+                    inds1, :, :, j
                 ].max()
 
                 # add stats in quadrature: real imag separately
                 if hasattr(uvp1, "stats_array") and hasattr(uvp2, "stats_array"):
                     for s in uvp1.stats_array.keys():
-                        stat1 = uvp1.get_stats(s, key1)
-                        stat2 = uvp2.get_stats(s, key2)
-                        uvp1.stats_array[s][i][blp1_inds, :, j] = np.sqrt(
+                        stat1 = uvp1.stats_array[s][i][inds1, :, j]
+                        stat2 = uvp2.stats_array[s][i2][inds2, :, j2]
+                        uvp1.stats_array[s][i][inds1, :, j] = np.sqrt(
                             stat1.real**2 + stat2.real**2
                         ) + 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)
 
-                    # add cov in quadrature: real and imag separately
-                    if hasattr(uvp1, "cov_array_real") and hasattr(
-                        uvp2, "cov_array_real"
-                    ):
-                        if uvp1.cov_model == uvp2.cov_model:
-                            cov1r = uvp1.get_cov(key1, component="real")
-                            cov2r = uvp2.get_cov(key2, component="real")
-                            uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1r**2 + cov2r**2
-                            )
-
-                            cov1i = uvp1.get_cov(key1, component="imag")
-                            cov2i = uvp2.get_cov(key2, component="imag")
-                            uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1i**2 + cov2i**2
-                            )
+                # add cov in quadrature: real and imag separately
+                if hasattr(uvp1, "cov_array_real") and hasattr(uvp2, "cov_array_real"):
+                    if uvp1.cov_model == uvp2.cov_model:
+                        cov1r = uvp1.cov_array_real[i][inds1, :, :, j]
+                        cov2r = uvp2.cov_array_real[i2][inds2, :, :, j2]
+                        uvp1.cov_array_real[i][inds1, :, :, j] = np.sqrt(
+                            cov1r**2 + cov2r**2
+                        )
+
+                        cov1i = uvp1.cov_array_imag[i][inds1, :, :, j]
+                        cov2i = uvp2.cov_array_imag[i2][inds2, :, :, j2]
+                        uvp1.cov_array_imag[i][inds1, :, :, j] = np.sqrt(
+                            cov1i**2 + cov2i**2
+                        )
 
                 # same for window function
                 if hasattr(uvp1, "window_function_array") and hasattr(
                     uvp2, "window_function_array"
                 ):
-                    window1 = uvp1.get_window_function(key1)
-                    window2 = uvp2.get_window_function(key2)
-                    uvp1.window_function_array[i][blp1_inds, ..., j] = np.sqrt(
+                    window1 = uvp1.window_function_array[i][inds1, ..., j]
+                    window2 = uvp2.window_function_array[i2][inds2, ..., j2]
+                    uvp1.window_function_array[i][inds1, ..., j] = np.sqrt(
                         window1**2 + window2**2
                     )
 
-- 
2.43.0


From 6636ce58847851f67e7677cc5b3ab4cd003af924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 15/66] fix: set_stats accepts the positive delays of folded
 spectra

This is the shape of what get_data returns for them.
---
 src/hera_pspec/uvpspec.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index c436a73..0e4e979 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1136,6 +1136,15 @@ class UVPSpec:
         statistic = np.asarray(statistic)
         data_shape = self.data_array[spw][blpairts, :, polpair].shape
 
+        # spectra that were folded only show their positive delays
+        folded_shape = self.get_data(key).shape
+        if self.folded and statistic.shape == folded_shape != data_shape:
+            statistic = np.pad(
+                statistic.astype(np.result_type(statistic, float)),
+                [(0, 0), (data_shape[1] - folded_shape[1], 0)],
+                constant_values=np.nan,
+            )
+
         if data_shape != statistic.shape:
             errmsg = f"Input array shape {statistic.shape} must match data_array shape {data_shape}."
             raise ValueError(errmsg)
-- 
2.43.0


From af55259e55c9d5ff2cf04e97c5fb97f6434b2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 16/66] fix: weighting matrices formed from a replaced
 covariance are forgotten

---
 src/hera_pspec/pspecdata.py | 71 ++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9eab887..ddc007c 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -465,6 +465,8 @@ class PSpecData:
             self._identity_G, self._identity_H, self._identity_Y = {}, {}, {}
         else:
             for k in keys:
+                if k in self._C or k in self._iC:
+                    self._forget_iC_weighting(k)
                 try:
                     del self._C[k]
                 except KeyError:
@@ -660,6 +662,23 @@ class PSpecData:
         for key in cov:
             self._C[key] = cov[key]
 
+    def _forget_iC_weighting(self, Ckey):
+        """
+        Remove the cached inverse-covariance weighting matrices that were
+        formed from a covariance which is being replaced.
+
+        Parameters
+        ----------
+        Ckey : tuple
+            Key of the covariance, see set_C.
+        """
+        dset_bls = list(zip(*Ckey[:2]))
+        self._R = {
+            k: R
+            for k, R in self._R.items()
+            if k[2] != "iC" or tuple(k[:2]) not in dset_bls
+        }
+
     def get_spw(self, include_extension=False):
         """
         Get self.spw_range with or without spw extension (self.filter_extension)
@@ -754,51 +773,36 @@ class PSpecData:
             # add model to key
             Ckey = ((dset, dset), (bl, bl)) + (model, time_index, False, True)
 
-        # Check if Ckey exists in known_cov. If so, just update self._C[Ckey] with known_cov.
+        # Check if Ckey exists in known_cov. If so, just use known_cov.
         if known_cov is not None:
             if Ckey in known_cov.keys():
                 spw = slice(*self.get_spw(include_extension=include_extension))
-                covariance = known_cov[Ckey][spw, spw]
-                self.set_C({Ckey: covariance})
+                return known_cov[Ckey][spw, spw]
 
         # check cache
         if Ckey not in self._C:
             # calculate covariance model
             if model == "empirical":
-                self.set_C(
-                    {
-                        Ckey: utils.cov(
-                            self.x(key, include_extension=include_extension),
-                            self.w(key, include_extension=include_extension),
-                        )
-                    }
+                self._C[Ckey] = utils.cov(
+                    self.x(key, include_extension=include_extension),
+                    self.w(key, include_extension=include_extension),
                 )
             elif model == "dsets":
-                self.set_C(
-                    {
-                        Ckey: np.diag(
-                            np.abs(
-                                self.w(key, include_extension=include_extension)[
-                                    :, time_index
-                                ]
-                                * self.dx(key, include_extension=include_extension)[
-                                    :, time_index
-                                ]
-                            )
-                            ** 2.0
-                        )
-                    }
+                self._C[Ckey] = np.diag(
+                    np.abs(
+                        self.w(key, include_extension=include_extension)[:, time_index]
+                        * self.dx(key, include_extension=include_extension)[
+                            :, time_index
+                        ]
+                    )
+                    ** 2.0
                 )
             elif model == "autos":
                 spw_range = self.get_spw(include_extension=include_extension)
-                self.set_C(
-                    {
-                        Ckey: np.diag(
-                            utils.variance_from_auto_correlations(
-                                self.dsets[dset], bl, spw_range, time_index
-                            )
-                        )
-                    }
+                self._C[Ckey] = np.diag(
+                    utils.variance_from_auto_correlations(
+                        self.dsets[dset], bl, spw_range, time_index
+                    )
                 )
             else:
                 raise ValueError(f"didn't recognize Ckey {Ckey}")
@@ -984,7 +988,7 @@ class PSpecData:
             # if self.lmode is not None: S += S[self.lmode-1]
 
             # FIXME: Is series of dot products quicker?
-            self.set_iC({Ckey: ic})
+            self._iC[Ckey] = ic
         return self._iC[Ckey]
 
     def Y(self, key):
@@ -1043,6 +1047,7 @@ class PSpecData:
         """
         for k in d:
             self._iC[k] = d[k]
+            self._forget_iC_weighting(k)
 
     def set_R(self, d):
         """
-- 
2.43.0


From 1517efce4f1b46371910474902f9a40be3524530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 17/66] fix: changed window, extension, symmetric taper or
 r_params clear the matrices formed before

---
 src/hera_pspec/pspecdata.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index ddc007c..4550db7 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1226,6 +1226,9 @@ class PSpecData:
                 "You cannot use a symmetric taper when there are nonzero filter extensions."
             )
         else:
+            if use_symmetric_taper != self.symmetric_taper:
+                # the weighting matrices change, but not what they are made from
+                self._R = {}
             self.symmetric_taper = use_symmetric_taper
 
     def set_filter_extension(self, filter_extension):
@@ -1239,15 +1242,13 @@ class PSpecData:
             filter will be applied to data.
             filter_extensions will be clipped to not extend beyond data range.
         """
-        if (
-            self.symmetric_taper
-            and not filter_extension[0] == 0
-            and not filter_extension[1] == 0
+        if self.symmetric_taper and (
+            not filter_extension[0] == 0 or not filter_extension[1] == 0
         ):
             raise_warning(
                 "You cannot set filter extensions greater then zero when symmetric_taper==True! Setting symmetric_taper==False!"
             )
-            self.symmetric_taper = False
+            self.set_symmetric_taper(False)
         assert isinstance(filter_extension, (list, tuple)), (
             "filter_extension must a tuple or list"
         )
@@ -1273,7 +1274,11 @@ class PSpecData:
         filter_extension[1] = np.min(
             [self.Nfreqs - self.spw_range[1], filter_extension[1]]
         )  # clip extension to not extend beyond data range
-        self.filter_extension = tuple(filter_extension)
+        filter_extension = tuple(int(ext) for ext in filter_extension)
+        if filter_extension != self.filter_extension:
+            # all matrices are of the extended spectral window
+            self.clear_cache()
+        self.filter_extension = filter_extension
 
     def set_weighting(self, data_weighting):
         """
@@ -1318,6 +1323,12 @@ class PSpecData:
             Absence of an `r_params` dictionary will result in an error.
         """
         key = self.parse_blkey(key)
+        # forget weighting matrices made with other parameters
+        self._R = {
+            k: R
+            for k, R in self._R.items()
+            if tuple(k[:3]) != key + (self.data_weighting,)
+        }
         key = (self.data_weighting,) + key
         self.r_params[key] = r_params
 
@@ -1350,9 +1361,15 @@ class PSpecData:
         assert isinstance(spw_range[0], (int, np.integer)), (
             "spw_range must be fed as len-2 integer tuple"
         )
+        if spw_range != self.spw_range:
+            # all matrices are of one spectral window
+            self.clear_cache()
         self.spw_range = spw_range
         self.spw_Nfreqs = spw_range[1] - spw_range[0]
         self.set_Ndlys(ndlys=ndlys)
+        if sum(self.filter_extension) > 0:
+            # clip the extensions to the data around the new spectral window
+            self.set_filter_extension(self.filter_extension)
 
     def set_Ndlys(self, ndlys=None):
         """
-- 
2.43.0


From cb134691b26551bbc4b7d3d9dc0a35cad6518781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 18/66] fix: matrices formed before are cleared when data are
 added or changed

---
 src/hera_pspec/pspecdata.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 4550db7..6cdf28d 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -296,6 +296,10 @@ class PSpecData:
         self.spw_range = (0, self.Nfreqs)
         self.spw_Nfreqs = self.Nfreqs
         self.spw_Ndlys = self.spw_Nfreqs
+        self.filter_extension = (0, 0)
+
+        # matrices formed so far are of the previous spectral window
+        self.clear_cache()
 
     def __str__(self):
         """
@@ -4347,6 +4351,8 @@ class PSpecData:
         # assign dsets
         if inplace:
             dsets = self.dsets
+            # clear matrix cache (as the data change)
+            self.clear_cache()
         else:
             dsets = copy.deepcopy(self.dsets)
 
@@ -4463,6 +4469,9 @@ class PSpecData:
         for p in pols:
             factors[p] = beam.Jy_to_mK(self.freqs, pol=p)
 
+        # clear matrix cache (as the data change)
+        self.clear_cache()
+
         # iterate over datasets and apply factor
         for i, dset in enumerate(self.dsets):
             # check dset vis units
-- 
2.43.0


From 389b86a945044c0b01cce8ed0a804ecef7c2a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 19/66] fix: analytic covariance is time-independent only if it
 is for all times of both keys

---
 src/hera_pspec/pspecdata.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 6cdf28d..e089819 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2194,17 +2194,15 @@ class PSpecData:
         if model != "foreground_dependent":
             # When model is 'foreground_dependent', since we are processing the outer products of visibilities from different times,
             # we are expected to have time-dependent inputs, thus check_uniform_input is always set to be False here.
-            C11_first = self.C_model(
-                key1, model=model, known_cov=known_cov, time_index=0
-            )
-            C11_last = self.C_model(
-                key1,
-                model=model,
-                known_cov=known_cov,
-                time_index=self.dsets[0].Ntimes - 1,
+            check_uniform_input = all(
+                np.allclose(
+                    self.C_model(key, model=model, known_cov=known_cov, time_index=t),
+                    self.C_model(key, model=model, known_cov=known_cov, time_index=0),
+                    atol=0.0,
+                )
+                for key in (key1, key2)
+                for t in range(1, self.dsets[0].Ntimes)
             )
-            if np.isclose(C11_first, C11_last).all():
-                check_uniform_input = True
 
         cov_q_real, cov_q_imag, cov_p_real, cov_p_imag = [], [], [], []
         for time_index in range(self.dsets[0].Ntimes):
-- 
2.43.0


From 04b30abbaa363993bea3a93e72fde1d4c6218648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 20/66] fix: symmetric_taper of a pspec run holds for all
 spectral windows

---
 src/hera_pspec/pspecdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index e089819..a822fda 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3730,6 +3730,7 @@ class PSpecData:
             # set spectral range
             logger.info(f"\nSetting spectral range: {spw_ranges[i]}")
             self.set_spw(spw_ranges[i], ndlys=n_dlys[i])
+            self.set_symmetric_taper(symmetric_taper)
             self.set_filter_extension(filter_extensions[i])
 
             # clear covariance cache
-- 
2.43.0


From 6ccabbdb08088144b270421ae63568a6c7434c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 21/66] fix: pspec reuses G and H with exact_norm only for the
 same polarization

---
 src/hera_pspec/pspecdata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index a822fda..c17d5c1 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3882,9 +3882,12 @@ class PSpecData:
                             [self.Y(key1).diagonal(), self.Y(key2).diagonal()]
                         )
 
-                        # Second: check cache for Y
+                        # Second: check cache for Y (G and H also depend on
+                        # the beam if exact_norm)
                         matches = [
-                            np.isclose(Y, y).all() for y in self._identity_Y.values()
+                            np.isclose(Y, y).all()
+                            and (not exact_norm or keys[0][-1] == key1[-1])
+                            for keys, y in self._identity_Y.items()
                         ]
                         if True in matches:
                             # This Y exists, so pick appropriate G and H and continue
-- 
2.43.0


From 31f40f01257c9db08bb72c55c331a930c2f52495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 22/66] fix: pspec works with weights given as UVData

---
 src/hera_pspec/pspecdata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index c17d5c1..8abf0c0 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4050,8 +4050,9 @@ class PSpecData:
                         pol_data.extend(qv.T)
 
                     # get weights
-                    wgts1 = self.w(key1).T
-                    wgts2 = self.w(key2).T
+                    # (weights given as UVData are complex-valued)
+                    wgts1 = np.real(self.w(key1)).T
+                    wgts2 = np.real(self.w(key2)).T
 
                     # get avg of nsample across frequency axis, weighted by wgts
                     nsamp1 = np.sum(
-- 
2.43.0


From e05a3a5a3b7cceeb0c49f0bedf01d0b46ae59247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 23/66] fix: pspec keeps times and baseline-pairs if the first
 polarization is skipped

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 8abf0c0..01bcd95 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4100,7 +4100,7 @@ class PSpecData:
                     )
 
                     # insert time and blpair info only once per blpair
-                    if i < 1 and j < 1:
+                    if i < 1 and len(spw_polpair) == 1:
                         # insert time info
                         # inds is a slice if dset1 has rectangular blts.
                         inds1 = dset1.antpair2ind(bl1, ordered=False)
-- 
2.43.0


From f349d6c260db9e08cac1aad3ba5cf09765ad07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 24/66] fix: broadcast_dset_flags flags only the spectral
 window and keeps the settings

---
 src/hera_pspec/pspecdata.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 01bcd95..cc28185 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2921,48 +2921,53 @@ class PSpecData:
         )
 
         # iterate over datasets
-        for dset in self.dsets:
+        for i, dset in enumerate(self.dsets):
+            # the same data may have been added more than once
+            if any(dset is other for other in self.dsets[:i]):
+                continue
             # iterate over spw ranges
             for spw in spw_ranges:
-                self.set_spw(spw)
+                in_spw = np.zeros(dset.Nfreqs, dtype=bool)
+                in_spw[spw[0] : spw[1]] = True
                 # unflag
                 if unflag:
                     # unflag for all times
-                    dset.flag_array[:, self.spw_range[0] : self.spw_range[1], :] = False
+                    dset.flag_array[:, in_spw, :] = False
                     continue
                 # enact time threshold on flag waterfalls
                 # iterate over polarizations
-                for i in range(dset.Npols):
+                for j in range(dset.Npols):
                     # iterate over unique baselines
                     ubl = np.unique(dset.baseline_array)
                     for bl in ubl:
                         # get baseline-times indices
                         bl_inds = np.where(np.isin(dset.baseline_array, bl))[0]
                         # get flag waterfall
-                        flags = dset.flag_array[bl_inds, :, i].copy()
+                        flags = dset.flag_array[bl_inds, :, j].copy()
                         Ntimes = float(flags.shape[0])
                         Nfreqs = float(flags.shape[1])
                         # get time- and freq-continguous flags
                         freq_contig_flgs = np.sum(flags, axis=1) / Nfreqs > 0.999999
                         Ntimes_noncontig = np.sum(~freq_contig_flgs, dtype=float)
+                        if Ntimes_noncontig == 0:
+                            # everything is flagged already
+                            continue
                         # get freq channels where non-contiguous flags exceed threshold
-                        exceeds_thresh = (
+                        exceeds_thresh = in_spw & (
                             np.sum(flags[~freq_contig_flgs], axis=0, dtype=float)
                             / Ntimes_noncontig
                             > time_thresh
                         )
                         # flag channels for all times that exceed time_thresh
                         dset.flag_array[
-                            bl_inds, np.where(exceeds_thresh)[0][:, None], i
+                            bl_inds, np.where(exceeds_thresh)[0][:, None], j
                         ] = True
                         # for pixels that have flags but didn't meet broadcasting limit
                         # flag the integration within the spw
                         flags[:, np.where(exceeds_thresh)[0]] = False
-                        flag_ints = np.max(
-                            flags[:, self.spw_range[0] : self.spw_range[1]], axis=1
-                        )
+                        flag_ints = np.max(flags[:, in_spw], axis=1)
                         dset.flag_array[
-                            bl_inds[flag_ints], self.spw_range[0] : self.spw_range[1], i
+                            bl_inds[flag_ints][:, None], np.where(in_spw)[0], j
                         ] = True
 
     def units(self, little_h=True):
-- 
2.43.0


From 9f18ee60ca5b7c81554349e7291e81b9dcde273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 25/66] fix: rephase_to_dset uses each data set's own
 polarizations and skips phased data

---
 src/hera_pspec/pspecdata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index cc28185..18957d4 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4375,9 +4375,6 @@ class PSpecData:
                 lst_grid.append(l)
         lst_grid = np.array(lst_grid)
 
-        # get polarization list
-        pol_list = dsets[dset_index].polarization_array.tolist()
-
         # iterate over dsets
         for i, dset in enumerate(dsets):
             if len(dset.phase_center_catalog) > 1:
@@ -4395,6 +4392,10 @@ class PSpecData:
             # skip if dataset is not drift phased
             if dset.phase_center_catalog[0]["cat_type"] != "unprojected":
                 warnings.warn(f"Skipping dataset {i} b/c it isn't unprojected")
+                continue
+
+            # get polarization list
+            pol_list = dset.polarization_array.tolist()
 
             # convert UVData to DataContainers. Note this doesn't make
             # a copy of the data
-- 
2.43.0


From 7b22cf58ed0f6280b128691844f6e165345db257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 26/66] fix: trim_dset_lsts matches LSTs within the tolerance
 and trims weights along

---
 src/hera_pspec/pspecdata.py | 50 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 18957d4..c4ca448 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4509,32 +4509,46 @@ class PSpecData:
             Decimal tolerance [radians] for comparing float-valued LST bins.
         """
         # ensure each dset has same dLST within tolerance / Ntimes
-        dlst = np.median(np.diff(np.unique(self.dsets[0].lst_array)))
+        # (in order of time, as LSTs may wrap)
+        def get_dlst(dset):
+            _, inds = np.unique(dset.time_array, return_index=True)
+            return np.median(np.diff(dset.lst_array[inds]) % (2 * np.pi))
+
+        dlst = get_dlst(self.dsets[0])
         for dset in self.dsets:
-            _dlst = np.median(np.diff(np.unique(dset.lst_array)))
+            _dlst = get_dlst(dset)
             if not np.isclose(dlst, _dlst, atol=10 ** (-lst_tol) / dset.Ntimes):
                 raise ValueError(
                     "Not all datasets in self.dsets are on the same LST "
                     "grid, cannot LST trim."
                 )
 
-        # get lst array of each dataset, turn into string and add to common_lsts
-        lst_arrs = []
-        common_lsts = set()
-        for i, dset in enumerate(self.dsets):
-            lsts = ["{lst:0.{tol}f}".format(lst=l, tol=lst_tol) for l in dset.lst_array]
-            lst_arrs.append(lsts)
-            if i == 0:
-                common_lsts = common_lsts.union(set(lsts))
-            else:
-                common_lsts = common_lsts.intersection(set(lsts))
+        # get the integrations of each dataset whose LST is found in all others
+        # (within tolerance, and also across the LST wrap)
+        lst_arrs = [np.unique(dset.lst_array) for dset in self.dsets]
+        keep_times = []
+        for dset in self.dsets:
+            keep = np.ones(dset.Nblts, dtype=bool)
+            for lsts in lst_arrs:
+                diffs = (dset.lst_array[:, None] - lsts + np.pi) % (2 * np.pi) - np.pi
+                keep &= np.any(np.abs(diffs) < 10.0 ** (-lst_tol), axis=1)
+            keep_times.append(np.unique(dset.time_array[keep]))
+
+        # iterate through dsets and trim off integrations whose lst isn't common,
+        # from the data as well as from their weights and standard deviations
+        trimmed = []
+        for i, times in enumerate(keep_times):
+            for uvd in (self.dsets[i], self.wgts[i], self.dsets_std[i]):
+                if uvd is None or any(uvd is done for done in trimmed):
+                    continue
+                if np.any(~np.isin(uvd.time_array, times)):
+                    # (units of mK, see Jy_to_mK, do not pass the UVData check)
+                    uvd.select(times=times, run_check=uvd.vis_units != "mK")
+                trimmed.append(uvd)
 
-        # iterate through dsets and trim off integrations whose lst isn't
-        # in common_lsts
-        for i, dset in enumerate(self.dsets):
-            trim_inds = np.array([l not in common_lsts for l in lst_arrs[i]])
-            if np.any(trim_inds):
-                self.dsets[i].select(times=dset.time_array[~trim_inds])
+        # update no. times and clear matrix cache (as the data change)
+        self.Ntimes = self.dsets[0].Ntimes
+        self.clear_cache()
 
 
 def pspec_run(
-- 
2.43.0


From 715cec5b05cb97c6a305aa87c5476db491466dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 27/66] fix: job_monitor retries the failed elements, not their
 indices

---
 src/hera_pspec/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0338561..ac75900 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1131,6 +1131,7 @@ def job_monitor(
     t_start = time.time()
 
     # run function over jobs
+    iterator = list(iterator)
     exit_codes = np.array(list(M(run_func, iterator)))
     tnow = datetime.now(UTC)
 
@@ -1159,7 +1160,7 @@ def job_monitor(
                 # break after certain number of tries
                 break
             # re-run function over jobs that failed
-            exit_codes = np.array(list(M(run_func, failures)))
+            exit_codes = np.array(list(M(run_func, [iterator[i] for i in failures])))
             # update counter
             counter += 1
             # update failures
-- 
2.43.0


From c7baa1696d7af83a27dc75f0851ee798e5c321bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 28/66] fix: east-west baselines have angle 0 whatever the
 rounding of their north component

---
 src/hera_pspec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index ac75900..323e12d 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1219,7 +1219,7 @@ def get_bl_lens_angs(blvecs, bl_error_tol=1.0):
     angs = np.array([(a + 180) % 360 if a < 0 else a for a in angs])
 
     # Find baseline groups with ang ~ 180 deg that have y-vec within bl_error and set to ang = 0 deg.
-    flip = (blvecs[:, 1] > -bl_error_tol) & (blvecs[:, 1] < 0) & (blvecs[:, 0] > 0)
+    flip = (np.abs(blvecs[:, 1]) < bl_error_tol) & (angs > 90)
     angs[flip] = 0
 
     return lens, angs
-- 
2.43.0


From 59e1280891a5e0081ae3017141bc40f4c7a01bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 29/66] fix: redundant baseline groups are ordered by their tag
 numbers, not as strings

---
 src/hera_pspec/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 323e12d..4e90170 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1078,7 +1078,9 @@ def get_blvec_reds(blvecs, bl_error_tol=1.0, match_bl_lens=False):
             red_bl_tag.append(bl_tag)
 
     # order based on tag
-    order = np.argsort(red_bl_tag)
+    order = sorted(
+        range(len(red_bl_tag)), key=lambda i: [int(t) for t in red_bl_tag[i].split("_")]
+    )
     red_bl_grp = [red_bl_grp[i] for i in order]
     red_bl_len = [red_bl_len[i] for i in order]
     red_bl_ang = [red_bl_ang[i] for i in order]
-- 
2.43.0


From f4bad00ffe5fd84b6e41306b3997a69375a79c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 30/66] fix: bootstrap_average_blpairs works on several objects

---
 src/hera_pspec/grouping.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 0f8fd1a..600e4eb 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1777,7 +1777,14 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     # Homogenise input UVPSpec objects in terms of available polarizations
     # and spectral windows
     if len(uvp_list) > 1:
-        uvp_list = uvputils.select_common(uvp_list, spws=True, pols=True, inplace=False)
+        uvp_list = uvputils.select_common(
+            uvp_list,
+            spws=True,
+            blpairs=False,
+            times=False,
+            polpairs=True,
+            inplace=False,
+        )
 
     # Loop over UVPSpec objects, looking for available blpairs in each
     avail_blpairs = [_ordered_unique(uvp.blpair_array) for uvp in uvp_list]
@@ -1835,10 +1842,11 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     # using the bootstrap-sampled blpair weights
     uvp_avg = []
     for i, uvp in enumerate(uvp_list):
+        # groups without any baseline-pair in this object don't enter its average
         _uvp = average_spectra(
             uvp,
-            blpair_groups=blpair_grps_list[i],
-            blpair_weights=blpair_wgts_list[i],
+            blpair_groups=[grp for grp in blpair_grps_list[i] if grp] or None,
+            blpair_weights=[wgt for wgt in blpair_wgts_list[i] if wgt] or None,
             time_avg=time_avg,
             inplace=False,
         )
-- 
2.43.0


From 9186b61f6a6318084d731e57753f5f06407f8eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 31/66] fix: fold_spectra keeps finite errors where only one of
 the two is infinite

---
 src/hera_pspec/grouping.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 600e4eb..7c37091 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1482,6 +1482,13 @@ def spherical_wf_from_uvp(
     return window_function_array
 
 
+def _fold_stats(left, right):
+    """Sum errors in inverse quadrature; those that are infinite don't count."""
+    with np.errstate(divide="ignore", invalid="ignore"):
+        inv = sum(np.where(np.isinf(x), 0.0, 1.0 / x**2.0) for x in (left, right))
+        return np.where(np.isinf(left) & np.isinf(right), np.inf, inv ** (-0.5))
+
+
 def fold_spectra(uvp):
     """
     Average bandpowers from matching positive and negative delay bins onto a
@@ -1590,9 +1597,9 @@ def fold_spectra(uvp):
                 for stat in uvp.stats_array.keys():
                     left = uvp.stats_array[stat][spw][:, 1 : Ndlys // 2, :][:, ::-1, :]
                     right = uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :]
-                    uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
-                        np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
-                    ) ** (-0.5)
+                    uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = _fold_stats(
+                        left, right
+                    )
                     uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
         else:
@@ -1675,9 +1682,9 @@ def fold_spectra(uvp):
                 for stat in uvp.stats_array.keys():
                     left = uvp.stats_array[stat][spw][:, : Ndlys // 2, :][:, ::-1, :]
                     right = uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :]
-                    uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
-                        np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
-                    ) ** (-0.5)
+                    uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = _fold_stats(
+                        left, right
+                    )
                     uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
     uvp.folded = True
-- 
2.43.0


From a0812fde9ad3b600bb464fcfb4736b20ee00b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 32/66] fix: average_in_delay_bins pairs positive and negative
 bins, leaves its kernels alone and updates Ndlys

---
 src/hera_pspec/grouping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 7c37091..0afce85 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2498,8 +2498,8 @@ def average_in_delay_bins(
     if not np.allclose(zero_bin_kernel, zero_bin_kernel[::-1]):
         raise ValueError("The zero bin kernel must be symmetric!")
 
-    kernel /= np.sum(kernel)
-    zero_bin_kernel /= np.sum(zero_bin_kernel)
+    kernel = kernel / np.sum(kernel)
+    zero_bin_kernel = zero_bin_kernel / np.sum(zero_bin_kernel)
 
     # We will replace parts of the new_uvp with downsampled
     # delays.
@@ -2563,7 +2563,7 @@ def average_in_delay_bins(
                 * uvp.stats_array[stat][spw][:, None]
             )
             newc = _bin_cov_like_array(thiscov, kernels, slices)
-            stats[stat] = np.diagonal(np.sqrt(newc), axis1=1, axis2=2).transpose(
+            stats[stat] = np.sqrt(np.diagonal(newc, axis1=1, axis2=2)).transpose(
                 (0, 2, 1)
             )
 
@@ -2576,5 +2576,6 @@ def average_in_delay_bins(
     new_uvp.dly_array = np.concatenate(dly_array)
     new_uvp.spw_dly_array = np.concatenate(spw_dly_array)
     new_uvp.Nspwdlys = len(new_uvp.dly_array)
+    new_uvp.Ndlys = len(np.unique(new_uvp.dly_array))
 
     return new_uvp
-- 
2.43.0


From c5d4e83985b223209a1a186a0ea5ea5360b33311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 33/66] fix: spherical_wf_from_uvp with several polarizations,
 times, folded spectra and given bins

---
 src/hera_pspec/grouping.py | 70 ++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 0afce85..f651ce9 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -771,6 +771,46 @@ def average_spectra(
         return uvp
 
 
+def _blpair_time_rows(uvp, time_tol):
+    """
+    Get the rows of every baseline-pair, ordered in time.
+
+    Parameters
+    ----------
+    uvp : UVPSpec object
+        Object whose baseline-pairs all have the same time-pairs.
+
+    time_tol : float
+        Tolerance within which times are equivalent, in days. Not used if every
+        baseline-pair has a single time.
+
+    Returns
+    -------
+    blpairs : list of int
+        Baseline-pairs in order of appearance.
+
+    rows : ndarray
+        Row indices of the baseline-pairs, shape (Nblpairs, Ntpairs).
+    """
+    blpairs = list(dict.fromkeys(uvp.blpair_array.tolist()))
+    rows = []
+    for blp in blpairs:
+        inds = np.where(uvp.blpair_array == blp)[0]
+        order = np.lexsort((uvp.time_2_array[inds], uvp.time_1_array[inds]))
+        rows.append(inds[order])
+    same = all(len(r) == len(rows[0]) for r in rows)
+    if same and len(rows[0]) > 1:
+        for times in (uvp.time_1_array, uvp.time_2_array):
+            same &= all(
+                np.allclose(times[r], times[rows[0]], rtol=0, atol=time_tol)
+                for r in rows
+            )
+    if not same:
+        raise ValueError("all baseline-pairs need to have the same times")
+
+    return blpairs, np.array(rows)
+
+
 def spherical_average(
     uvp_in,
     kbins,
@@ -1342,11 +1382,11 @@ def spherical_wf_from_uvp(
         # we modify the units of the input kbins to be consistent with uvp_in
         # and, likely, the units of the pre-computed window functions.
         if little_h:
-            kbin_edges *= uvp_in.cosmo.h
-            kbin_edges_theory *= uvp_in.cosmo.h
+            kbin_edges = kbin_edges * uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory * uvp_in.cosmo.h
         else:
-            kbin_edges /= uvp_in.cosmo.h
-            kbin_edges_theory /= uvp_in.cosmo.h
+            kbin_edges = kbin_edges / uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory / uvp_in.cosmo.h
         # final little_h matches the units of uvp_in
         little_h = "h^-3" in uvp_in.norm_units
 
@@ -1367,6 +1407,10 @@ def spherical_wf_from_uvp(
         blpair_groups = _normalize_grouped_input(
             blpair_groups, "blpair_groups", "baseline-pair groups"
         )
+        if len(blpair_groups) > 0 and isinstance(blpair_groups[0][0], tuple):
+            blpair_groups = [
+                [uvp.antnums_to_blpair(blp) for blp in blpg] for blpg in blpair_groups
+            ]
         if blpair_lens is None:
             # Get all baseline pairs in uvp object (in integer form)
             uvp_blpairs = [uvp.antnums_to_blpair(blp) for blp in uvp.get_blpairs()]
@@ -1416,6 +1460,10 @@ def spherical_wf_from_uvp(
         inplace=True,
     )
 
+    # rows of the averaged baseline-pairs, in the same order of times
+    _, blpt_rows = _blpair_time_rows(uvp, time_tol)
+    Ntimes = blpt_rows.shape[1]
+
     # initialize blank arrays and dicts
     window_function_array = {}
 
@@ -1435,11 +1483,10 @@ def spherical_wf_from_uvp(
 
         # setup arrays
         window_function_array[spw] = np.zeros(
-            (uvp.Ntimes, Nk, Nk_in, uvp.Npols), dtype=np.float64
+            (Ntimes, Nk, Nk_in, uvp.Npols), dtype=np.float64
         )
 
         # iterate over polarisation
-        spw_window_function = []
         for ip, polpair in enumerate(uvp.polpair_array):
             # grids used to compute the window functions
             kperp_bins = uvp.window_function_kperp[spw][:, ip]
@@ -1447,11 +1494,13 @@ def spherical_wf_from_uvp(
             ktot = np.sqrt(kperp_bins[:, None] ** 2 + kpara_bins**2)
 
             cyl_wf = uvp.window_function_array[spw][..., ip]
+            # folded spectra keep their (empty) non-positive delays at the start
+            cyl_wf = cyl_wf[:, cyl_wf.shape[1] - len(kparas) :]
             # separate baseline-time axis to iterate over times
-            cyl_wf = cyl_wf.reshape((uvp.Ntimes, uvp.Nblpairs, *cyl_wf.shape[1:]))
+            cyl_wf = cyl_wf[blpt_rows.T]
 
             # take average for each time
-            for it in range(uvp.Ntimes):
+            for it in range(Ntimes):
                 wf_spherical = np.zeros((Nk, Nk_in))
                 for m1 in range(Nk):
                     mask1 = (kbin_edges[m1] <= kmags) & (kmags < kbin_edges[m1 + 1])
@@ -1473,11 +1522,10 @@ def spherical_wf_from_uvp(
                             wf_spherical[m1, :] = np.divide(
                                 wf_spherical[m1, :],
                                 np.sum(wf_spherical[m1, :]),
+                                out=np.zeros(Nk_in),
                                 where=np.sum(wf_spherical[m1, :]) != 0,
                             )
-                spw_window_function.append(wf_spherical)
-
-            window_function_array[spw][..., ip] = np.copy(spw_window_function)
+                window_function_array[spw][it, ..., ip] = wf_spherical
 
     return window_function_array
 
-- 
2.43.0


From d3a0a3e48b1ef1e1b1899367ea964dddaa30ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 34/66] fix: spherical_average keeps times, weights, errors and
 window functions of each baseline-pair

---
 src/hera_pspec/grouping.py | 136 +++++++++++++++++++++----------------
 1 file changed, 77 insertions(+), 59 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index f651ce9..afda778 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -936,16 +936,21 @@ def spherical_average(
     assert np.all(kbin_left[1:] >= kbin_right[:-1] - 1e-6), "kbins must not overlap"
 
     # perform time and cylindrical averaging upfront if requested
-    if not uvp.exact_windows and (blpair_groups is not None or time_avg):
+    if blpair_groups is not None or time_avg:
         uvp.average_spectra(
             blpair_groups=blpair_groups,
             time_avg=time_avg,
             time_tol=time_tol,
             blpair_weights=blpair_weights,
+            error_field=list(getattr(uvp, "stats_array", {})),
             error_weights=error_weights,
             inplace=True,
         )
 
+    # rows of the baseline-pairs, in the same order of times
+    blpairs, blpt_rows = _blpair_time_rows(uvp, time_tol)
+    Ntimes = blpt_rows.shape[1]
+
     # initialize blank arrays and dicts
     Nk = len(kbins)
     dlys_array, spw_dlys_array = [], []
@@ -990,58 +995,66 @@ def spherical_average(
         # setup non delay-based arrays for this spw
         spw_range = spw_ranges[spw]
         wgt_array[spw] = np.zeros(
-            (uvp.Ntimes, spw_range[2], 2, uvp.Npols), dtype=np.float64
+            (Ntimes, spw_range[2], 2, uvp.Npols), dtype=np.float64
         )
-        integration_array[spw] = np.zeros((uvp.Ntimes, uvp.Npols), dtype=np.float64)
-        nsample_array[spw] = np.zeros((uvp.Ntimes, uvp.Npols), dtype=np.float64)
+        integration_array[spw] = np.zeros((Ntimes, uvp.Npols), dtype=np.float64)
+        nsample_array[spw] = np.zeros((Ntimes, uvp.Npols), dtype=np.float64)
 
         # setup arrays with delays in them
         Ndlys = spw_range[3]
-        Nfreqs = spw_range[2]
+        # folded spectra keep their (empty) non-positive delays at the start
+        keep = slice(uvp.data_array[spw].shape[1] - Ndlys, None)
         # check if object has been delay-averaged
         Ndlyblps = Ndlys * uvp.Nblpairs
         data_array[spw] = np.zeros(
-            (uvp.Ntimes, Ndlyblps, uvp.Npols), dtype=np.complex128
+            (Ntimes, Ndlyblps, uvp.Npols), dtype=np.complex128
         )
         if store_cov:
             cov_array_real[spw] = np.zeros(
-                (uvp.Ntimes, Ndlyblps, Ndlyblps, uvp.Npols), dtype=np.float64
+                (Ntimes, Ndlyblps, Ndlyblps, uvp.Npols), dtype=np.float64
             )
             cov_array_imag[spw] = np.zeros(
-                (uvp.Ntimes, Ndlyblps, Ndlyblps, uvp.Npols), dtype=np.float64
+                (Ntimes, Ndlyblps, Ndlyblps, uvp.Npols), dtype=np.float64
             )
         if store_stats:
             for stat in uvp.stats_array.keys():
                 stats_array[stat][spw] = np.zeros(
-                    (uvp.Ntimes, Ndlyblps, uvp.Npols), dtype=np.complex128
+                    (Ntimes, Ndlyblps, uvp.Npols), dtype=np.complex128
                 )
         if store_window:
             if uvp.exact_windows:
                 window_function_array[spw] = np.zeros(
-                    (uvp.Ntimes, Nk, Nk_theory, uvp.Npols), dtype=np.float64
+                    (Ntimes, Nk, Nk_theory, uvp.Npols), dtype=np.float64
                 )
             else:
                 Nkpar = uvp.window_function_array[spw].shape[2]
                 window_function_array[spw] = np.zeros(
-                    (uvp.Ntimes, Ndlyblps, Nkpar, uvp.Npols), dtype=np.float64
+                    (Ntimes, Ndlyblps, Nk_theory, uvp.Npols), dtype=np.float64
                 )
 
         # setup the design matrix: P_cyl = A P_sph
-        A[spw] = np.zeros((uvp.Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
-        # design matrix for window functions
-        Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
+        A[spw] = np.zeros((Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
         # setup weighting matrix: block diagonal for each Ndly x Ndly
         # we can represent the Ndlyblps x Ndlyblps block diagonal matrix as Ndlyblps x Ndlys
-        E = np.zeros((uvp.Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
+        E = np.zeros((Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
+
+        # sum of all weights: shape (Ntimes, Npols)
+        Esum = np.zeros((Ntimes, uvp.Npols), dtype=np.float64)
 
         # get kperps for this spw: shape (Nbltpairs,)
         kperps = uvp.get_kperps(spw, little_h=True)
 
         # get kparas for this spw: shape (Ndlys,)
         kparas = uvp.get_kparas(spw, little_h=True)
-        # get kparas for this spw: shape (Nfreqs,) - used for window function averaging
-        all_dlys = utils.get_delays(uvp.freq_array[uvp.spw_to_freq_indices(spw)])
-        kparas_per_freq = uvp.get_kparas(spw, little_h=True, dlys=all_dlys)
+        # get kparas for this spw: shape (Nkpar,) - used for window function averaging
+        if store_window and not uvp.exact_windows:
+            all_dlys = utils.get_delays(
+                uvp.freq_array[uvp.spw_to_freq_indices(spw)], n_dlys=Nkpar
+            )
+            # of folded spectra, only positive delays
+            columns = slice(Nkpar // 2 + 1 if uvp.folded else 0, None)
+            all_dlys = all_dlys[columns]
+            kparas_window = uvp.get_kparas(spw, little_h=True, dlys=all_dlys)
 
         # get k to tau mapping for this spw
         avgz = uvp.cosmo.f2z(np.mean(uvp.freq_array[uvp.spw_to_freq_indices(spw)]))
@@ -1053,9 +1066,7 @@ def spherical_average(
         spw_dlys_array.extend(np.ones_like(taus, dtype=int) * spw)
 
         # iterate over blpairs
-        for b, blp in enumerate(uvp.get_blpairs()):
-            # get blpair time indices
-            blpt_inds = uvp.blpair_to_indices(blp)
+        for b, blpt_inds in enumerate(blpt_rows):
 
             # get k magnitude of data: (Ndlys,)
             kmags = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas**2)
@@ -1074,22 +1085,17 @@ def spherical_average(
             dslice = slice(dstart, dstop)
 
             # store data
-            data_array[spw][:, dslice] = uvp.data_array[spw][blpt_inds]
-
-            if store_window and not uvp.exact_windows:
-                window_function_array[spw][:, dslice, ...] = uvp.window_function_array[
-                    spw
-                ][blpt_inds]
+            data_array[spw][:, dslice] = uvp.data_array[spw][blpt_inds, keep]
 
             if store_stats:
                 for stat in stats_array:
                     stats_array[stat][spw][:, dslice] = uvp.stats_array[stat][spw][
-                        blpt_inds
+                        blpt_inds, keep
                     ]
 
             if store_cov:
                 cov_array_real[spw][:, dslice, dslice] = uvp.cov_array_real[spw][
-                    blpt_inds
+                    blpt_inds, keep, keep
                 ]
 
             # fill weighting matrix E
@@ -1121,6 +1127,7 @@ def spherical_average(
             Emean = np.trace(
                 E[:, dslice, :], axis1=1, axis2=2
             )  # use sum of E across delay as weight
+            Esum += Emean
             wgt_array[spw] += wgts * Emean[:, None, None, :]
             integration_array[spw] += ints * Emean
             nsample_array[spw] += nsmp
@@ -1135,23 +1142,24 @@ def spherical_average(
                 # populate A matrix
                 A[spw][:, i + Ndlys * b, kind, :] = 1.0
 
-            # get k_sph -> k_cyl mapping for window function
-            # get k magnitude of data: (Ndlys,)
-            kmags_per_freq = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas_per_freq**2)
-            for i, kmag in enumerate(kmags_per_freq):
-                kind = (kbin_left_theory < kmag) & (kbin_right_theory >= kmag)
-                if np.any(kind):
-                    # skip if not in any kbins
-                    # convert kind into an integer for indexing
-                    kind = np.where(kind)[0][0]
-                # populate Aw matrix
-                Aw[:, i, kind, :] = 1.0
+            # project window functions of this blpair onto theory bins: W_cyl A
+            if store_window and not uvp.exact_windows:
+                # design matrix: (Nkpar, Nk_theory)
+                kmags_window = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas_window**2)
+                Aw = (kbin_left_theory < kmags_window[:, None]) & (
+                    kbin_right_theory >= kmags_window[:, None]
+                )
+                window_function_array[spw][:, dslice] = np.einsum(
+                    "tdkp,kj->tdjp",
+                    uvp.window_function_array[spw][blpt_inds, keep, columns],
+                    Aw.astype(np.float64),
+                )
 
         # normalize metadata sums
-        wgt_array[spw] /= np.max(wgt_array[spw], axis=(2, 3), keepdims=True).clip(
+        wgt_array[spw] /= np.max(wgt_array[spw], axis=(1, 2), keepdims=True).clip(
             1e-40, np.inf
         )
-        integration_array[spw] /= np.trace(E.real, axis1=1, axis2=2).clip(1e-40, np.inf)
+        integration_array[spw] /= Esum.clip(1e-40, np.inf)
 
         # project onto spherically binned space
         # note: matmul (@) is generally as fast or many times faster than einsum here
@@ -1166,13 +1174,21 @@ def spherical_average(
         # by applying each baseline block in Em
         # to each Ndly x Nk baseline-horizontal block in Am
         EmAm = np.zeros_like(Am)
-        for t in range(uvp.Ntimes):
+        for t in range(Ntimes):
             for p in range(uvp.Npols):
-                for b in range(uvp.Nblpairs):
+                for b in range(len(blpairs)):
                     blpslice = slice(Ndlys * b, Ndlys * (b + 1))
                     EmAm[p, t, blpslice] = Em[p, t, blpslice] @ Am[p, t, blpslice]
-        invAEA = np.linalg.pinv(Am.transpose(0, 1, 3, 2) @ EmAm)
+        AEA = Am.transpose(0, 1, 3, 2) @ EmAm
+        if weight_by_cov:
+            invAEA = np.linalg.pinv(AEA)
+        else:
+            # diagonal, with zeros in bins without any weight
+            invAEA = np.divide(1.0, AEA, out=np.zeros_like(AEA), where=AEA > 0)
         H = EmAm @ invAEA
+        # nothing but rounding errors goes into bins without any weight
+        weighted = np.diagonal(AEA, axis1=2, axis2=3) != 0
+        H = np.where(weighted[:, :, None, :], H, 0.0)
         Ht = H.transpose(0, 1, 3, 2)
 
         # bin data: p_sph = H.T p_cyl
@@ -1183,10 +1199,9 @@ def spherical_average(
 
         if store_window and not uvp.exact_windows:
             # bin window function: W_sph = H.T W_cyl A
-            # wm shape (Npols, Ntimes, Ndlyblps, Ndlyblps)
+            # wm shape (Npols, Ntimes, Ndlyblps, Nk_theory)
             wm = np.moveaxis(window_function_array[spw], -1, 0)
-            Aw2 = np.moveaxis(Aw, -1, 0)
-            wm = Ht @ wm @ Aw2
+            wm = Ht @ wm
             window_function_array[spw] = np.moveaxis(wm, 0, -1)
 
         if store_stats:
@@ -1201,7 +1216,7 @@ def spherical_average(
                     np.einsum("ptik,tip,ptik->tkp", H, sq_stat.clip(0, 1e40), H)
                 )
                 # set zeroed stats to large number
-                avg_stat[np.isclose(avg_stat, 0)] = 1e40
+                avg_stat[avg_stat == 0] = 1e40
                 # update stats_array
                 stats_array[stat][spw] = avg_stat
 
@@ -1215,7 +1230,7 @@ def spherical_average(
 
     if uvp.exact_windows and store_window:
         window_function_array = spherical_wf_from_uvp(
-            uvp,
+            uvp_in,
             np.r_[kbin_left, kbin_right[-1]],
             kbin_edges_theory=np.r_[kbin_left_theory, kbin_right_theory[-1]],
             blpair_groups=blpair_groups,
@@ -1225,6 +1240,7 @@ def spherical_average(
             spw_array=uvp.spw_array,
             little_h=True,
             verbose=False,
+            time_tol=time_tol,
         )
 
     # handle data arrays
@@ -1247,10 +1263,10 @@ def spherical_average(
     uvp.spw_dly_array = np.asarray(spw_dlys_array)
 
     # handle baseline metadata: use first blpair as representative blpair
-    blp = uvp.blpair_array[0]
-    blp_inds = uvp.blpair_to_indices(blp)
+    blp = blpairs[0]
+    blp_inds = blpt_rows[0]
     uvp.blpair_array = uvp.blpair_array[blp_inds]
-    uvp.Nbltpairs = uvp.Ntpairs
+    uvp.Nbltpairs = uvp.Ntpairs = uvp.Ntimes = Ntimes
     uvp.Nblpairs = 1
     bl_array = np.unique([uvp.antnums_to_bl(an) for an in uvp.blpair_to_antnums(blp)])
     uvp.bl_vecs = np.asarray(
@@ -1266,12 +1282,14 @@ def spherical_average(
     uvp.bl_vecs[:] = 0.0
 
     # handle other metadata
-    uvp.time_avg_array = np.unique(uvp_in.time_avg_array)
-    uvp.time_1_array = np.unique(uvp_in.time_1_array)
-    uvp.time_2_array = np.unique(uvp_in.time_2_array)
-    uvp.lst_avg_array = np.unique(uvp_in.lst_avg_array)
-    uvp.lst_1_array = np.unique(uvp_in.lst_1_array)
-    uvp.lst_2_array = np.unique(uvp_in.lst_2_array)
+    uvp.time_avg_array = uvp.time_avg_array[blp_inds]
+    uvp.time_1_array = uvp.time_1_array[blp_inds]
+    uvp.time_2_array = uvp.time_2_array[blp_inds]
+    uvp.lst_avg_array = uvp.lst_avg_array[blp_inds]
+    uvp.lst_1_array = uvp.lst_1_array[blp_inds]
+    uvp.lst_2_array = uvp.lst_2_array[blp_inds]
+    # the |k| bins are not delays that were folded
+    uvp.folded = False
 
     uvp.history = "Spherically averaged with hera_pspec [{}]\n{}\n{}\n{}".format(
         __version__, add_to_history, "-" * 40, uvp.history
-- 
2.43.0


From 3a1c3f19d8af96b202aa1e1967853b1c4cd53b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 35/66] fix: uvd_to_Tsys converts each polarization by its own
 beam

---
 src/hera_pspec/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 4e90170..0f359a0 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1469,11 +1469,12 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     elif isinstance(beam, uvpspec.UVPSpec):
         uvp = beam
         if hasattr(uvp, "OmegaP"):
-            # use first pol in each polpair
+            # use first pol in each polpair, in the order of OmegaP
             uvp_pols = [
-                pp[0] if pp[0].upper() not in STOKPOLS else "pI"
-                for pp in uvp.get_polpairs()
+                uvpspec.uvputils.polpair_int2tuple(pp, pol_strings=True)[0]
+                for pp in uvp.polpair_array
             ]
+            uvp_pols = [p if p.upper() not in STOKPOLS else "pI" for p in uvp_pols]
             Op = {uvp_pol: uvp.OmegaP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
             Opp = {uvp_pol: uvp.OmegaPP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
             beam = pspecbeam.PSpecBeamFromArray(
@@ -1488,12 +1489,13 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
 
     # convert autos in Jy to Tsys in Kelvin
     J2K = {pol: beam.Jy_to_mK(uvd.freq_array, pol=pol) / 1e3 for pol in pols}
+    data_pols = uvd.get_pols()
     for blpol in uvd.get_antpairpols():
         bl, pol = blpol[:2], blpol[2]
         tinds = uvd.antpair2ind(bl)
         if pol.upper() in STOKPOLS:
             pol = "pI"
-        pind = pols.index(pol)
+        pind = data_pols.index(pol)
         uvd.data_array[tinds, ..., pind] *= J2K[pol]
 
     if Tsys_outfile is not None:
-- 
2.43.0


From 6937313a90a21d05485fd0a7f0c46f7153acf43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 36/66] fix: uvp_noise_error with few unflagged times, given
 P_N, and P_SN alone

---
 src/hera_pspec/utils.py | 122 ++++++++++++++++++++--------------------
 1 file changed, 60 insertions(+), 62 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0f359a0..5ddd660 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1504,6 +1504,12 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     return uvd
 
 
+def _at_nearest_unflagged_lst(values, flags, lsts, at_lsts):
+    """Values at given LSTs, each that of the nearest LST that isn't flagged."""
+    separation = np.abs((lsts[~flags] - at_lsts[:, None] + np.pi) % (2 * np.pi) - np.pi)
+    return values[~flags][np.argmin(separation, axis=1)]
+
+
 def uvp_noise_error(
     uvp,
     auto_Tsys=None,
@@ -1563,11 +1569,6 @@ def uvp_noise_error(
     if isinstance(err_type, str):
         err_type = [err_type]
 
-    # get metadata if needed
-    if precomp_P_N is None:
-        lst_indices = np.unique(auto_Tsys.lst_array, return_index=True)[1]
-        lsts = auto_Tsys.lst_array[sorted(lst_indices)]
-        freqs = np.squeeze(auto_Tsys.freq_array)
     # calculate scalars for spws and polpairs.
     scalar = {}
     for spw in uvp.spw_array:
@@ -1583,36 +1584,39 @@ def uvp_noise_error(
     for spw in uvp.spw_array:
         # get spw properties
         spw_range = uvp.get_spw_ranges(spw)[0]
-        spw_start = np.argmin(np.abs(np.squeeze(auto_Tsys.freq_array) - spw_range[0]))
-        spw_stop = spw_start + spw_range[2]
+        if precomp_P_N is None:
+            freqs = np.squeeze(auto_Tsys.freq_array)
+            spw_start = np.argmin(np.abs(freqs - spw_range[0]))
+            spw_stop = spw_start + spw_range[2]
         taper = uvt.dspec.gen_window(uvp.taper, spw_range[2])
         # iterate over blpairs
         for blp in uvp.get_blpairs():
             blp_int = uvp.antnums_to_blpair(blp)
             blp_inds = uvp.blpair_to_indices(blp)
 
-            time_1_selection = uvp.time_1_array[blp_inds]
-            time_2_selection = uvp.time_2_array[blp_inds]
-
-            # get time indices in data
-            times_blp_1 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
-            ]
-            times_blp_2 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
-            ]
-
-            # This time matching is at roughly 1 second tolerance.
-            # Interleaves with < 1 second cadence could run into trouble.
-            # I don't anticipate this being a problem with HERA's 10 second interleave time.
-            tinds1 = [
-                np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_1_selection
-            ]
-            tinds2 = [
-                np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_2_selection
-            ]
+            if precomp_P_N is None:
+                time_1_selection = uvp.time_1_array[blp_inds]
+                time_2_selection = uvp.time_2_array[blp_inds]
+
+                # get time indices in data
+                inds_blp_1 = auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
+                inds_blp_2 = auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
+                times_blp_1 = auto_Tsys.time_array[inds_blp_1]
+                times_blp_2 = auto_Tsys.time_array[inds_blp_2]
+                lsts_blp_1 = auto_Tsys.lst_array[inds_blp_1]
+                lsts_blp_2 = auto_Tsys.lst_array[inds_blp_2]
+
+                # This time matching is at roughly 1 second tolerance.
+                # Interleaves with < 1 second cadence could run into trouble.
+                # I don't anticipate this being a problem with HERA's 10 second interleave time.
+                tinds1 = [
+                    np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_1_selection
+                ]
+                tinds2 = [
+                    np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_2_selection
+                ]
 
             # iterate over polarization
             for polpair in uvp.polpair_array:
@@ -1675,26 +1679,19 @@ def uvp_noise_error(
                         Tflag1 = np.all(Tflag1, axis=-1)
                         Tflag2 = np.all(Tflag2, axis=-1)
                         # interpolate to appropriate LST grid
-                        if (np.count_nonzero(~Tflag1) > 1) & (
-                            np.count_nonzero(~Tflag2) > 1
-                        ):
-                            Tsys1 = interp1d(
-                                lsts[tinds1][~Tflag1],
-                                Tsys1[~Tflag1],
-                                kind="nearest",
-                                bounds_error=False,
-                                fill_value="extrapolate",
-                            )(uvp.lst_1_array[blp_inds])
-                            Tsys2 = interp1d(
-                                lsts[tinds2][~Tflag2],
-                                Tsys2[~Tflag2],
-                                kind="nearest",
-                                bounds_error=False,
-                                fill_value="extrapolate",
-                            )(uvp.lst_2_array[blp_inds])
-                            Tsys = (Tsys1 * Tsys2) ** 0.5
-                        else:
-                            Tsys = (Tsys1[0] * Tsys2[0]) ** 0.5
+                        Tsys1 = _at_nearest_unflagged_lst(
+                            Tsys1,
+                            Tflag1,
+                            lsts_blp_1[tinds1],
+                            uvp.lst_1_array[blp_inds],
+                        )
+                        Tsys2 = _at_nearest_unflagged_lst(
+                            Tsys2,
+                            Tflag2,
+                            lsts_blp_2[tinds2],
+                            uvp.lst_2_array[blp_inds],
+                        )
+                        Tsys = (Tsys1 * Tsys2) ** 0.5
 
                     # calculate P_N
                     P_N = uvp.generate_noise_spectra(
@@ -1708,7 +1705,7 @@ def uvp_noise_error(
                     )[blp_int]
 
                 else:
-                    P_N = uvp.get_stats(precomp_P_N, key)
+                    P_N = uvp.get_stats(precomp_P_N, key).real
 
                 if "P_N" in err_type:
                     # set stats
@@ -1724,15 +1721,12 @@ def uvp_noise_error(
                     P_SN = np.sqrt(np.sqrt(2) * P_S * P_N + P_N**2)
                     # catch nans, set to inf
                     P_SN[np.isnan(P_SN)] = np.inf
+                    # P_SN correction
+                    if P_SN_correction:
+                        P_SN *= _P_SN_correction_factor(P_SN, P_N)
                     # set stats
                     uvp.set_stats("P_SN", key, P_SN)
 
-    # P_SN correction
-    if P_SN_correction and "P_SN" in err_type:
-        if precomp_P_N is None:
-            precomp_P_N = "P_N"
-        apply_P_SN_correction(uvp, P_SN="P_SN", P_N=precomp_P_N)
-
 
 def uvp_noise_error_parser():
     """
@@ -1785,6 +1779,15 @@ def uvp_noise_error_parser():
     return a
 
 
+def _P_SN_correction_factor(p_sn, p_n):
+    """Correction factor of P_SN for the double counting of noise."""
+    corr = 1 - (np.sqrt(1 / np.sqrt(np.pi) + 1) - 1) * p_n / p_sn.clip(1e-40, np.inf)
+    corr[np.isclose(corr, 0)] = np.inf
+    corr[corr < 0] = np.inf
+    corr[np.isnan(corr)] = np.inf
+    return corr
+
+
 def apply_P_SN_correction(uvp, P_SN="P_SN", P_N="P_N"):
     """
     Apply correction factor to P_SN errorbar in stats_array to account
@@ -1807,12 +1810,7 @@ def apply_P_SN_correction(uvp, P_SN="P_SN", P_N="P_N"):
         p_n = uvp.stats_array[P_N][spw]
         p_sn = uvp.stats_array[P_SN][spw]
         # derive correction
-        corr = 1 - (np.sqrt(1 / np.sqrt(np.pi) + 1) - 1) * p_n.real / p_sn.real.clip(
-            1e-40, np.inf
-        )
-        corr[np.isclose(corr, 0)] = np.inf
-        corr[corr < 0] = np.inf
-        corr[np.isnan(corr)] = np.inf
+        corr = _P_SN_correction_factor(p_sn.real, p_n.real)
         # apply correction
         uvp.stats_array[P_SN][spw] *= corr
 
-- 
2.43.0


From 19eaf02190849df8b0eec734bfad6b0dacc7fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 37/66] fix: construct_pstokes leaves its inputs alone and
 reads files

---
 src/hera_pspec/pstokes.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index b3b91ac..28f2b60 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -113,15 +113,17 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
     assert isinstance(uvd1, pyuvdata.UVData), "uvd1 must be a pyuvdata.UVData instance"
     assert isinstance(uvd2, pyuvdata.UVData), "uvd2 must be a pyuvdata.UVData instance"
 
+    pol_conventions = []
     for i, uvd in enumerate([uvd1, uvd2]):
         pol_convention = getattr(uvd, "pol_convention", None)
         if pol_convention is None:
+            pol_convention = "avg"
             warnings.warn(
                 f'No polarization convention in uvd{i + 1}. Considering it to be "avg".'
             )
-            setattr(uvd, "pol_convention", "avg")
+        pol_conventions.append(pol_convention)
 
-    if uvd1.pol_convention != uvd2.pol_convention:
+    if pol_conventions[0] != pol_conventions[1]:
         raise ValueError("pol_convention of uvd1 and uvd2 are different.")
 
     # combine arrays according to polarization convention
@@ -129,7 +131,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
         pol1,
         pol2,
         pstokes,
-        uvd1.pol_convention,
+        pol_conventions[0],
         [uvd1.data_array, uvd2.data_array],
         [uvd1.flag_array, uvd2.flag_array],
         [uvd1.nsample_array, uvd2.nsample_array],
@@ -145,6 +147,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
     uvdS.flag_array = combined_flags  # flag array
     uvdS.polarization_array = np.array([pstokes], dtype=int)  # polarization number
     uvdS.nsample_array = combined_nsamples
+    uvdS.pol_convention = pol_conventions[0]
 
     uvdS.history = (
         f"Merged into pseudo-stokes vis with hera_pspec version {__version__}\n"
@@ -408,13 +411,13 @@ def construct_pstokes(
     # convert pstokes to integer if fed as a string
     if isinstance(pstokes, str):
         pstokes = pyuvdata.utils.polstr2num(
-            pstokes, x_orientation=dset1.telescope.get_x_orientation_from_feeds()
+            pstokes, x_orientation=uvd1.telescope.get_x_orientation_from_feeds()
         )
 
     # check if dset1 and dset2 habe the same spectral window
     spw1 = uvd1.spw_array
     spw2 = uvd2.spw_array
-    assert spw1 == spw2, "dset1 and dset2 must have the same spectral windows."
+    assert np.array_equal(spw1, spw2), "dset1 and dset2 must have the same spectral windows."
 
     # check if dset1 and dset2 have the same frequencies
     freqs1 = uvd1.freq_array
@@ -539,7 +542,7 @@ def generate_pstokes_argparser():
         type=str,
         help="list of pStokes you wish to calculate. Default is ['pI']",
         nargs="+",
-        default="pI",
+        default=["pI"],
     )
     a.add_argument(
         "--outputdata",
-- 
2.43.0


From 7c23fe20ec63a1795407003d848e04dc8ae417f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 38/66] fix: bins of negative delay pair with those of positive
 delay

---
 src/hera_pspec/grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index afda778..ebcad5c 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2453,7 +2453,8 @@ def _get_delay_slices(
     # This means we keep the zero delay un-averaged.
     neg_slices = []
     low = zero_idx - nk - nzero // 2
-    while low >= 0:
+    first = max(0, 2 * zero_idx + 1 - n)  # its mirror image exists
+    while low >= first:
         neg_slices.append(slice(low, low + nk))
         low -= nk
 
-- 
2.43.0


From f749e18a4a6ff5af1c7a16c0508c0f1af74b4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:04 +0000
Subject: [PATCH 39/66] fix: pspec attaches the history it is given to the
 spectrum

---
 src/hera_pspec/pspecdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index c4ca448..335956b 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4273,6 +4273,8 @@ class PSpecData:
                 "-" * 20,
             )
         )
+        if history:
+            uvp.history += f"{history}\n"
 
         if self.primary_beam is not None:
             # attach cosmology
-- 
2.43.0


From 7d39a1ea6aa1097f87189e33b96dfb9d15b891e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:04 +0000
Subject: [PATCH 40/66] fix: Jy_to_mK works for datasets with different numbers
 of polarizations

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 335956b..37b00f7 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4454,7 +4454,7 @@ class PSpecData:
             Beam object.
         """
         # get all unique polarizations of all the datasets
-        pols = set(np.ravel([dset.polarization_array for dset in self.dsets]))
+        pols = set(np.hstack([dset.polarization_array for dset in self.dsets]))
 
         # assign beam
         if beam is None:
-- 
2.43.0


From 54e4014b532d1efc3faadb00539f26a5c2f233da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:04 +0000
Subject: [PATCH 41/66] fix: pspec_run names spectra by the unique labels of
 the datasets

---
 src/hera_pspec/pspecdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 37b00f7..e23a6b2 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5065,6 +5065,9 @@ def pspec_run(
         cal_flag=cal_flag,
     )
 
+    # labels that were given more than once have been made unique
+    dset_labels = ds.labels
+
     # erase calibration as they are no longer needed
     del cals
 
@@ -5087,7 +5090,7 @@ def pspec_run(
         ds.dsets[0].select(
             times=np.unique(ds.dsets[0].time_array)[0:Ntimes:2], inplace=True
         )
-        ds.labels.append("dset1")
+        ds.labels.append("dset1" if "dset1" not in ds.labels else "dset1.1")
 
         # update dsets_std
         if ds.dsets_std[0] is None:
-- 
2.43.0


From b116880d5183d5166e1a314df1f04bc8c99e0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:04 +0000
Subject: [PATCH 42/66] fix: pspec_run reads what each dataset has of the
 requested baselines and polarizations

---
 src/hera_pspec/pspecdata.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index e23a6b2..9ace925 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5654,6 +5654,7 @@ def _load_dsets(
     ### is needed instead of pol1 & pol2 for dset1 & dset2
     dsets = []
     Ndsets = len(fnames)
+    any_match = False
     for i, dset in enumerate(fnames):
         utils.log(
             f"Reading {i + 1} / {Ndsets} datasets...", f=logf, lvl=1, verbose=verbose
@@ -5665,10 +5666,42 @@ def _load_dsets(
             dfiles = glob.glob(dset)
         else:
             dfiles = dset
-        uvd.read(dfiles, bls=bls, polarizations=pols, file_type=file_type)
+        # select only what the dataset has: most file types refuse to read a
+        # selection of which any part is absent (miriad files need not be asked)
+        _bls, _pols = bls, pols
+        if (bls is not None or pols is not None) and file_type != "miriad":
+            meta = UVData()
+            meta.read(dfiles, read_data=False, file_type=file_type)
+            if bls is not None:
+                antpairs = set(meta.get_antpairs())
+                _bls = [bl for bl in bls if bl in antpairs or bl[::-1] in antpairs]
+            if pols is not None:
+                x_orientation = meta.telescope.get_x_orientation_from_feeds()
+                _pols = [
+                    pol
+                    for pol in pols
+                    if (
+                        uvutils.polstr2num(pol, x_orientation=x_orientation)
+                        if isinstance(pol, str)
+                        else pol
+                    )
+                    in meta.polarization_array
+                ]
+        try:
+            if (bls is not None and not _bls) or (pols is not None and not _pols):
+                raise ValueError("No data is present that match the selection.")
+            uvd.read(dfiles, bls=_bls, polarizations=_pols, file_type=file_type)
+            any_match = True
+        except ValueError:
+            # keep the dataset in its place: the others may have matching data
+            uvd = UVData()
+            uvd.read(dfiles, file_type=file_type)
         uvd.extra_keywords["filename"] = json.dumps(dfiles)
         dsets.append(uvd)
 
+    if not any_match:
+        raise ValueError("No data is present in any dataset that match the selection.")
+
     return dsets
 
 
-- 
2.43.0


From f85a6b7de35666b8b3ede73020fc49648194f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 43/66] fix: evaluate the beam transform at all pairs of
 transverse modes, not only on the diagonal

---
 src/hera_pspec/uvwindow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index 33109ff..d0e4a97 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -627,7 +627,9 @@ class UVWindow:
             A_real = RegularGridInterpolator(
                 (k, k), ft_beam[i], bounds_error=False, fill_value=0.0
             )
-            interp_ft_beam[:, :, i] = A_real(np.array([kgrid, kgrid]).T)
+            interp_ft_beam[:, :, i] = A_real(
+                np.stack(np.meshgrid(kgrid, kgrid, indexing="ij"), axis=-1)
+            )
 
         return interp_ft_beam, kperp_norm
 
-- 
2.43.0


From d039cdd4badefc2775041f2e8da53c6cc4cdb3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 44/66] fix: exact window functions use the beam of the second
 polarization where it differs from the first

---
 src/hera_pspec/uvwindow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index d0e4a97..b924de3 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -443,7 +443,7 @@ class UVWindow:
         # create FTBeam objects
         ftbeam_obj_pol = []
         for ip, pol in enumerate(polpair):
-            if (ip > 0) and (pol[ip] == pol[0]):
+            if (ip > 0) and (polpair[ip] == polpair[0]):
                 # do not recompute if two polarisations are identical
                 ftbeam_obj_pol.append(ftbeam_obj_pol[0])
             else:
@@ -475,7 +475,7 @@ class UVWindow:
             + np.where(bandwidth >= freq_array[0] - 1e-9)[0][0]
         )
         for ip in range(2):
-            if (ip > 0) and (pol[ip] == pol[0]):
+            if (ip > 0) and (polpair[ip] == polpair[0]):
                 continue
             ftbeam_obj_pol[ip].update_spw(spw_range=tuple(spw_range))
 
-- 
2.43.0


From 8b514d23d5df12b0a07299a1116eeec358e9e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 45/66] fix: cylindrical window functions of an odd number of
 channels take each delay's own line

---
 src/hera_pspec/uvwindow.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index b924de3..808b6a3 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -981,9 +981,11 @@ class UVWindow:
                 self.Nfreqs // 2 + 1 :
             ]
         # except for tau at 1/4 and 3/4 of the spectral window for symmetry reasons
-        _, cyl_wf[self.Nfreqs - self.Nfreqs // 4, :, :] = self._get_wf_for_tau(
-            -self.dly_array[self.Nfreqs // 4], wf_array1, kperp_bins, kpara_bins
-        )
+        # (an odd number of delays has no Nyquist mode and is symmetric as it is)
+        if self.Nfreqs % 2 == 0:
+            _, cyl_wf[self.Nfreqs - self.Nfreqs // 4, :, :] = self._get_wf_for_tau(
+                -self.dly_array[self.Nfreqs // 4], wf_array1, kperp_bins, kpara_bins
+            )
 
         # normalisation of window functions
         sum_per_bin = np.sum(cyl_wf, axis=(1, 2))[:, None, None]
-- 
2.43.0


From f50ee90d8f4501a09b327150bde6d36123e15cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 46/66] fix: run_and_write keeps the existing file when a
 request is refused

---
 src/hera_pspec/uvwindow.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index 808b6a3..89ed9b8 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -1,5 +1,4 @@
 import copy
-import os
 import sys
 import warnings
 from pathlib import Path
@@ -1331,7 +1330,6 @@ class UVWindow:
             raise OSError(f"{filepath} exists, not overwriting...")
         elif filepath.exists() and clobber is True:
             print(f"{filepath} exists, overwriting...")
-            os.remove(filepath)
 
         bl_lens = np.atleast_1d(np.asarray(bl_lens, dtype=float)).reshape(-1)
         nbls = bl_lens.size  # number of redudant groups
-- 
2.43.0


From 283952e2466e3c6ef965d90f546cc96ea72886a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 47/66] fix: config_pspec_blpairs reads antenna positions from
 a file that exists

---
 src/hera_pspec/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 5ddd660..5aff947 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -887,6 +887,7 @@ def config_pspec_blpairs(
 
     # parse wildcards in uv_templates to get wildcard-unique filenames
     unique_files = []
+    existing_files = []
     pol_grps = []
     for template in uv_templates:
         for pol in pols:
@@ -896,6 +897,7 @@ def config_pspec_blpairs(
                 # if any files were parsed, add to pol_grps
                 if len(files) > 0:
                     pol_grps.append((pol, group))
+                existing_files += files
                 # insert into unique_files with {pol} and {group} re-inserted
                 for _file in files:
                     _unique_file = _file.replace(f".{pol}.", ".{pol}.").replace(
@@ -935,8 +937,8 @@ def config_pspec_blpairs(
                 print("config_pspec_blpairs: All files were filtered out!")
             return []
 
-    # use a single file from unique_files and a single pol-group combination to get antenna positions
-    _file = unique_files[0].format(pol=pol_grps[0][0], group=pol_grps[0][1])
+    # use a single file to get antenna positions
+    _file = sorted(existing_files)[0]
     uvd = UVData()
     uvd.read(_file, read_data=False, file_type=file_type)
 
-- 
2.43.0


From 135d4c9afc937b3e5b48c37cbfe7d6106a1e94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 48/66] fix: config_pspec_blpairs matches exclusion patterns
 with the names of the files

---
 src/hera_pspec/utils.py | 62 +++++++++++++----------------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 5aff947..a22c0ec 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -870,9 +870,8 @@ def config_pspec_blpairs(
 
     Notes
     -----
-    A group-pol-pair is formed by self-matching unique files in the
-    glob-parsed master list, and then string-formatting-in appropriate
-    pol and group selections given pol_pairs and group_pairs.
+    A group-pol-pair is formed if files of both of its pols and groups are
+    in the glob-parsed master list and not excluded.
     """
     # type check
     if isinstance(uv_templates, str):
@@ -885,57 +884,34 @@ def config_pspec_blpairs(
     pols = sorted(set([item for sublist in pol_pairs for item in sublist]))
     groups = sorted(set([item for sublist in group_pairs for item in sublist]))
 
-    # parse wildcards in uv_templates to get wildcard-unique filenames
-    unique_files = []
+    # parse wildcards in uv_templates to get the files and pol-groups that exist
     existing_files = []
     pol_grps = []
     for template in uv_templates:
         for pol in pols:
             for group in groups:
                 # parse wildcards with pol / group selection
-                files = glob.glob(template.format(pol=pol, group=group))
+                files = []
+                for f in glob.glob(template.format(pol=pol, group=group)):
+                    # Exclude user-specified patterns
+                    matches = [p for p in exclude_patterns or [] if p in f]
+                    if len(matches) == 0:
+                        files.append(f)
+                    elif verbose:
+                        print(
+                            "File matches pattern '%s' and will be excluded: %s"
+                            % (matches[0], f)
+                        )
                 # if any files were parsed, add to pol_grps
                 if len(files) > 0:
                     pol_grps.append((pol, group))
                 existing_files += files
-                # insert into unique_files with {pol} and {group} re-inserted
-                for _file in files:
-                    _unique_file = _file.replace(f".{pol}.", ".{pol}.").replace(
-                        f".{group}.", ".{group}."
-                    )
-                    if _unique_file not in unique_files:
-                        unique_files.append(_unique_file)
-    unique_files = sorted(unique_files)
-
-    # Exclude user-specified patterns
-    if exclude_patterns is not None:
-        to_exclude = []
-
-        # Loop over files and patterns
-        for f in unique_files:
-            for pattern in exclude_patterns:
-                # Add to list of files to be excluded
-                if pattern in f:
-                    if verbose:
-                        print(
-                            "File matches pattern '%s' and will be excluded: %s"
-                            % (pattern, f)
-                        )
-                    to_exclude.append(f)
-                    continue
 
-        # Exclude files that matched a pattern
-        for f in to_exclude:
-            try:
-                unique_files.remove(f)
-            except:
-                pass
-
-        # Test for empty list and fail if found
-        if len(unique_files) == 0:
-            if verbose:
-                print("config_pspec_blpairs: All files were filtered out!")
-            return []
+    # Test for empty list and fail if found
+    if exclude_patterns is not None and len(existing_files) == 0:
+        if verbose:
+            print("config_pspec_blpairs: All files were filtered out!")
+        return []
 
     # use a single file to get antenna positions
     _file = sorted(existing_files)[0]
-- 
2.43.0


From 1b538ef4d5a3079bc42e307dea463fb994d27082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 49/66] fix: PSpecBeamFromArray leaves the dictionaries it is
 given as they are

---
 src/hera_pspec/pspecbeam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index 2d002b5..2c6dc18 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -666,6 +666,9 @@ class PSpecBeamFromArray(PSpecBeamBase):
         if not isinstance(OmegaP, dict) or not isinstance(OmegaPP, dict):
             raise TypeError("OmegaP and OmegaPP must both be either dicts or arrays.")
 
+        # Leave the dicts of the caller as they are
+        OmegaP, OmegaPP = dict(OmegaP), dict(OmegaPP)
+
         # Check for disallowed polarizations
         for key in list(OmegaP.keys()):
             # turn into pol integer if a pol string
-- 
2.43.0


From 022e63b79d56a0ff76d16574a9a60ba7483a4921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 50/66] fix: Cosmo_Conversions uses Om_M where Om_b and Om_c do
 not add up to it

---
 src/hera_pspec/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/conversions.py b/src/hera_pspec/conversions.py
index e7279d2..b10e758 100644
--- a/src/hera_pspec/conversions.py
+++ b/src/hera_pspec/conversions.py
@@ -106,7 +106,7 @@ class Cosmo_Conversions:
         """
         # Setup parameters
         if Om_M is not None:
-            if np.isclose(Om_b + Om_c, Om_M, atol=1e-5) is False:
+            if not np.isclose(Om_b + Om_c, Om_M, atol=1e-5):
                 Om_b = Om_M * 0.156635
                 Om_c = Om_M * 0.843364
         else:
-- 
2.43.0


From 15e288b2a8e2bc499e2031c43fed806e53d30704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 51/66] fix: PSpecData.add calibrates copies, each entry by its
 own calibration

---
 src/hera_pspec/pspecdata.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9ace925..c02eb84 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -253,19 +253,16 @@ class PSpecData:
                 for i in range(len(self.dsets), len(dsets) + len(self.dsets))
             ]
 
-        # Apply calibration if provided
-        for dset, dset_std, cal in zip(dsets, dsets_std, cals):
-            if cal is not None:
-                if dset is not None:
-                    uvutils.uvcalibrate(dset, cal, inplace=True, prop_flags=cal_flag)
-                    dset.extra_keywords["calibration"] = cal.extra_keywords.get(
-                        "filename", '""'
-                    )
-                if dset_std is not None:
-                    uvutils.uvcalibrate(
-                        dset_std, cal, inplace=True, prop_flags=cal_flag
+        # Apply calibration if provided, to copies: one object may be in several
+        # places, with different calibrations
+        dsets, dsets_std = list(dsets), list(dsets_std)
+        for sets in (dsets, dsets_std):
+            for i, cal in enumerate(cals):
+                if cal is not None and sets[i] is not None:
+                    sets[i] = uvutils.uvcalibrate(
+                        sets[i], cal, inplace=False, prop_flags=cal_flag
                     )
-                    dset_std.extra_keywords["calibration"] = cal.extra_keywords.get(
+                    sets[i].extra_keywords["calibration"] = cal.extra_keywords.get(
                         "filename", '""'
                     )
 
@@ -5068,6 +5065,9 @@ def pspec_run(
     # labels that were given more than once have been made unique
     dset_labels = ds.labels
 
+    # continue with the calibrated datasets
+    dsets, dsets_std = list(ds.dsets), list(ds.dsets_std)
+
     # erase calibration as they are no longer needed
     del cals
 
-- 
2.43.0


From f96ce6b45c3dbefbfd787b66ec22dc8f63a88565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 52/66] fix: plots: abs-imag component shows the absolute
 imaginary part

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index bf71cb7..a29c30e 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -721,7 +721,7 @@ def delay_waterfall(
             elif component == "imag":
                 power = np.imag(power)
             elif component == "abs-imag":
-                power = np.abs(np.real(power))
+                power = np.abs(np.imag(power))
 
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
-- 
2.43.0


From 9640140354714e644d7c9a83e3b2c3eb144ac3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 53/66] fix: plots: no Delta^2 labels where the conversion was
 not made

---
 src/hera_pspec/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index a29c30e..f5db7c5 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -538,7 +538,7 @@ def delay_spectrum(
             psunits = psunits.replace("pi", r"\pi")
 
         # Power spectrum type
-        if deltasq:
+        if deltasq and not delay:
             ax.set_ylabel(r"$\Delta^2$ $[%s]$" % psunits, fontsize=16)
         else:
             ax.set_ylabel(r"$P(k_\parallel)$ $[%s]$" % psunits, fontsize=16)
@@ -878,7 +878,7 @@ def delay_waterfall(
 
     # make suptitle
     if axes[0][0].get_figure()._suptitle is None:
-        if deltasq:
+        if deltasq and not delay:
             units = r"$%s\Delta^2$ $[%s]$" % (logunits, psunits)
         else:
             units = r"$%sP(k_\parallel)$ $[%s]$" % (logunits, psunits)
@@ -1226,7 +1226,7 @@ def delay_wedge(
         if cbax is None:
             cbax = ax
         cbar = fig.colorbar(cax, ax=cbax, extend=cb_extend)
-        if deltasq:
+        if deltasq and not delay:
             p = r"\Delta^2"
         else:
             p = "P"
-- 
2.43.0


From 8af5db7e39a8d11497b4fa5efe13d8f3b9572030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 54/66] fix: plots: floor of negative values ignores flagged
 rows

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index f5db7c5..b3535ea 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -726,7 +726,7 @@ def delay_waterfall(
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
             if fix_negval:
-                power[power < 0] = np.abs(power).min() * 1e-6 + 1e-10
+                power[power < 0] = np.nanmin(np.abs(power)) * 1e-6 + 1e-10
 
             # assign to waterfall
             waterfall[key] = power
-- 
2.43.0


From c8f909e1341df5c2225040ce7d62654d65b11e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 55/66] fix: plots: each waterfall panel has the LSTs of its
 own pair

---
 src/hera_pspec/plot.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index b3535ea..eebb694 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -770,17 +770,7 @@ def delay_waterfall(
     assert axes.ndim == 2, "input axes must have ndim == 2"
     Nvert, Nhorz = axes.shape
 
-    # Get LST range: setting y-ticks is tricky due to LST wrapping...
-    y = uvp_plt.lst_avg_array[uvp_plt.key_to_indices(list(waterfall.keys())[0])[1]]
-    y = np.unwrap(y)
-    if y[0] > np.pi:
-        # if start is closer to 2pi than 0, lower axis by an octave
-        y -= 2 * np.pi
-    if lst_in_hrs:
-        lst_units = "Hr"
-        y *= 24 / (2 * np.pi)
-    else:
-        lst_units = "rad"
+    lst_units = "Hr" if lst_in_hrs else "rad"
 
     # get baseline vectors
     blvecs = dict(
@@ -824,6 +814,15 @@ def delay_waterfall(
             key = keys[k]
             blp = uvp_plt.blpair_to_antnums(key[1])
 
+            # Get LST range of this blpair: setting y-ticks is tricky due to LST
+            # wrapping...
+            y = np.unwrap(uvp_plt.lst_avg_array[uvp_plt.key_to_indices(key)[1]])
+            if y[0] > np.pi:
+                # if start is closer to 2pi than 0, lower axis by an octave
+                y -= 2 * np.pi
+            if lst_in_hrs:
+                y *= 24 / (2 * np.pi)
+
             # plot waterfall
             cax = ax.matshow(
                 waterfall[key],
-- 
2.43.0


From 0764976d0d1831339876c88ce0ad0977474fa5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 56/66] fix: plots: delay_wedge draws only the requested pairs
 also without times

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index eebb694..afd28ab 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1074,7 +1074,7 @@ def delay_wedge(
         fig = ax.get_figure()
 
     # Select out times and blpairs if provided
-    if times is not None:
+    if blpairs is not None or times is not None:
         uvp.select(blpairs=blpairs, times=times, inplace=True)
 
     # Average across redundant groups and time
-- 
2.43.0


From 23171619d1d738fd830690dddeefe8c9e86cd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 57/66] fix: plots: names of waterfall files have their
 extension once

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index afd28ab..490e634 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1417,7 +1417,7 @@ def plot_uvdata_waterfalls(
         outfile = basename.format(bl="%d.%d" % (ant1, ant2), pol=pol)
         if format is not None:
             # Make sure format extension is given
-            if outfile[-len(format)].lower() != format.lower():
+            if not outfile.lower().endswith(f".{format.lower()}"):
                 outfile = "%s.%s" % (outfile, format)
         fig.tight_layout()
         fig.savefig(outfile, format=format)
-- 
2.43.0


From 0bac14aac4ff4a027e3e8d7725a80d0773ffeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 58/66] fix: plots: flags of visibilities can be plotted

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 490e634..47f6481 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1401,7 +1401,7 @@ def plot_uvdata_waterfalls(
         if data == "data":
             pass
         elif data == "flags":
-            d = uvd.get_flags((ant1, ant2, pol))
+            d = uvd.get_flags((ant1, ant2, pol)).astype(float)
         elif data == "nsamples":
             d = uvd.get_nsamples((ant1, ant2, pol))
         else:
-- 
2.43.0


From 4554cdfad6734072cacd4fc6b655eb7262a7546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:43 +0000
Subject: [PATCH 59/66] fix: plots: blank rows of a waterfall are blank in the
 imaginary part too

---
 src/hera_pspec/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 47f6481..5bdd0f4 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -707,9 +707,6 @@ def delay_waterfall(
             key = (spw, blp, pol)
             # get power data
             power = uvp_plt.get_data(key, omit_flags=False)
-            # set flagged power data to nan
-            flags = np.isclose(uvp_plt.get_integrations(key), 0.0)
-            power[flags, :] = np.nan
 
             # get component
             if component == "abs":
@@ -723,6 +720,10 @@ def delay_waterfall(
             elif component == "abs-imag":
                 power = np.abs(np.imag(power))
 
+            # set flagged power data to nan
+            flags = np.isclose(uvp_plt.get_integrations(key), 0.0)
+            power[flags, :] = np.nan
+
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
             if fix_negval:
-- 
2.43.0


From f792aadef6100ce2871f9a5e75bdeb07d6eeb04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 60/66] fix: plots: wave numbers of a wedge are labelled with h
 only where they are in h/Mpc

---
 src/hera_pspec/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 5bdd0f4..93ba5e4 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1247,8 +1247,9 @@ def delay_wedge(
         xlabel = r"$\tau$ $[{\rm ns}]$"
         ylabel = r"$|\vec{b}|$ $[{\rm m}]$"
     else:
-        xlabel = r"$k_{\parallel}\ [h\ \rm Mpc^{-1}]$"
-        ylabel = r"$k_{\perp}\ [h\ \rm Mpc^{-1}]$"
+        kunits = r"h\ \rm Mpc^{-1}" if little_h else r"\rm Mpc^{-1}"
+        xlabel = rf"$k_{{\parallel}}\ [{kunits}]$"
+        ylabel = rf"$k_{{\perp}}\ [{kunits}]$"
     if rotate:
         _xlabel = ylabel
         ylabel = xlabel
-- 
2.43.0


From 548a4eff2d6b8e04ff0b4d0f553c1f3a47f4c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 61/66] fix: bootstrap_run.py: logging and profiling options
 are not arguments of the bootstrap

---
 scripts/bootstrap_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/bootstrap_run.py b/scripts/bootstrap_run.py
index 1464ab6..8a11c1c 100755
--- a/scripts/bootstrap_run.py
+++ b/scripts/bootstrap_run.py
@@ -4,14 +4,14 @@ Pipeline script to load a PSpecContainer and bootstrap over redundant baseline-
 pair groups to produce errorbars.
 """
 
-from hera_cal._cli_tools import parse_args, run_with_profiling
+from hera_cal._cli_tools import filter_kwargs, parse_args, run_with_profiling
 
 from hera_pspec import grouping
 
 # Parse commandline args
 args = grouping.get_bootstrap_run_argparser()
 a = parse_args(args)
-kwargs = vars(a)  # dict of args
+kwargs = filter_kwargs(vars(a))  # dict of args
 
 # Get arguments
 filename = kwargs.pop("filename")
-- 
2.43.0


From 36e6830390cb856209bee68fe4eea6ca47fec091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 62/66] fix: psc_merge_spectra.py: use the parser and options
 that exist

---
 scripts/psc_merge_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/psc_merge_spectra.py b/scripts/psc_merge_spectra.py
index 1e594df..a083795 100755
--- a/scripts/psc_merge_spectra.py
+++ b/scripts/psc_merge_spectra.py
@@ -9,14 +9,14 @@ from hera_cal._cli_tools import parse_args, run_with_profiling
 from hera_pspec import container
 
 # Parse commandline args
-args = container.get_combine_psc_argparser()
+args = container.get_combine_psc_spectra_argparser()
 a = parse_args(args)
 
 run_with_profiling(
     container.combine_psc_spectra,
     a,
     psc=a.filename,
-    uvp_split_str=a.uvp_split_str,
+    dset_split_str=a.dset_split_str,
     ext_split_str=a.ext_split_str,
     verbose=a.verbose,
 )
-- 
2.43.0


From cf4030b9cb93e85a036faa102a549d532971bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 63/66] fix: auto_noise_run.py: --spectra selects spectra

---
 scripts/auto_noise_run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/auto_noise_run.py b/scripts/auto_noise_run.py
index 8e470e7..893d3b1 100644
--- a/scripts/auto_noise_run.py
+++ b/scripts/auto_noise_run.py
@@ -24,9 +24,10 @@ def main(args):
     # iterate through spectra and groups,
     # compute noise, and update container.
     for group in groups:
-        if args.spectra is None:
-            spectra = psc.spectra(group)
-        for spec in spectra:
+        for spec in psc.spectra(group):
+            # spectra are named with their group, as in bootstrap_run
+            if args.spectra is not None and f"{group}/{spec}" not in args.spectra:
+                continue
             uvp = psc.get_pspec(group, spec)
             utils.uvp_noise_error(uvp, auto_Tsys, err_type=args.err_type)
             psc.set_pspec(group, spec, uvp, overwrite=True)
-- 
2.43.0


From 5eeb6a3fb035f9db66b9cd17ccfb4824facc4a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 64/66] fix: boolean command-line options can be switched off

---
 src/hera_pspec/grouping.py  |  6 +++---
 src/hera_pspec/pspecdata.py |  2 +-
 src/hera_pspec/utils.py     | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index ebcad5c..af60291 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2257,7 +2257,7 @@ def get_bootstrap_run_argparser():
     a.add_argument(
         "--time_avg",
         default=False,
-        type=bool,
+        type=utils.str_to_bool,
         help="Perform time-average in averaging step.",
     )
     a.add_argument(
@@ -2275,13 +2275,13 @@ def get_bootstrap_run_argparser():
     a.add_argument(
         "--normal_std",
         default=True,
-        type=bool,
+        type=utils.str_to_bool,
         help="Whether to calculate a 'normal' standard deviation (np.std).",
     )
     a.add_argument(
         "--robust_std",
         default=False,
-        type=bool,
+        type=utils.str_to_bool,
         help="Whether to calculate a 'robust' standard deviation (astropy.stats.biweight_midvariance).",
     )
     a.add_argument(
diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index c02eb84..12f6136 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5506,7 +5506,7 @@ def get_pspec_run_argparser():
     a.add_argument(
         "--symmetric_taper",
         default=True,
-        type=bool,
+        type=utils.str_to_bool,
         help="If True, apply sqrt of taper before foreground filtering and then another sqrt after. If False, apply full taper after foreground Filter. ",
     )
     a.add_argument(
diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index a22c0ec..2d53029 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -778,6 +778,18 @@ def load_config(config_file):
     return cfg
 
 
+def str_to_bool(value):
+    """
+    Convert the text of a command-line option to a boolean.
+    Can be used as the type of an argparse argument.
+    """
+    if value.lower() in ("true", "t", "yes", "y", "1"):
+        return True
+    if value.lower() in ("false", "f", "no", "n", "0"):
+        return False
+    raise ValueError(f"{value} is neither true nor false")
+
+
 def flatten(nested_list):
     """
     Flatten a list of nested lists
-- 
2.43.0


From 62aabfc7b7574f9c29db94bb903d3f1fe3f2b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 65/66] fix: pspec_run.py: parameters given with --cosmo make a
 cosmology

---
 scripts/pspec_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/pspec_run.py b/scripts/pspec_run.py
index 03e3e5e..b2dbe67 100755
--- a/scripts/pspec_run.py
+++ b/scripts/pspec_run.py
@@ -3,7 +3,7 @@ import sys
 
 from hera_cal._cli_tools import filter_kwargs, parse_args, run_with_profiling
 
-from hera_pspec import pspecdata
+from hera_pspec import conversions, pspecdata
 
 # parse args
 args = pspecdata.get_pspec_run_argparser()
@@ -18,6 +18,9 @@ filename = kwargs.pop("filename")
 # we want to compute cross-corr power spectra by default so feed
 # the inverse of the include_autocorrs arg.
 kwargs["include_crosscorrs"] = not (kwargs.pop("exclude_crosscorrs"))
+# a cosmology is given by its parameters
+if kwargs["cosmo"] is not None:
+    kwargs["cosmo"] = conversions.Cosmo_Conversions(*kwargs["cosmo"])
 # get special kwargs
 history = " ".join(sys.argv)
 
-- 
2.43.0


From 7dc53b92e03c456ae74267907b0dcec171e759aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:30 +0000
Subject: [PATCH 66/66] fix: Sensitivity.set_cosmology: the beam takes the
 cosmology too

---
 src/hera_pspec/noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/noise.py b/src/hera_pspec/noise.py
index cc6241d..ed2d9fa 100644
--- a/src/hera_pspec/noise.py
+++ b/src/hera_pspec/noise.py
@@ -125,6 +125,8 @@ class Sensitivity:
             cosmo = conversions.Cosmo_Conversions(**cosmo)
         self.cosmo = cosmo
         self.cosmo_params = str(self.cosmo.get_params())
+        if hasattr(self, "beam"):
+            self.beam.cosmo = self.cosmo
 
     def set_beam(self, beam: PSpecBeamBase) -> None:
         """
-- 
2.43.0

