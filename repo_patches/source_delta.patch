From d859ca23808c4c845b992b81c715beb946200b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 001/107] fix: don't add start_xyz to Survey.pos_nev (it
 doubled the start offset)

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 454a7f1..a6359b9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -859,7 +859,7 @@ class Survey:
         self.dls = mc.dls
         self.pos_xyz = mc.poss
         self.pos_nev = (
-            get_nev(self.pos_xyz)
+            get_nev(self.pos_xyz, start_xyz=self.start_xyz)
             * np.full_like(
                 self.pos_xyz,
                 np.array([
-- 
2.43.0


From e27203f8f20daa5d7c752aa1ca568c65f19aa5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 002/107] fix: resolve the vertical section from the
 displacement, leave the azimuths alone

---
 welleng/survey.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a6359b9..05bd550 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1304,21 +1304,22 @@ class Survey:
             vertical_section_azimuth if not deg
             else math.radians(vertical_section_azimuth)
         )
-        azi_temp = getattr(
+        # convert from the reference azimuth to grid, since the positions are
+        # calculated in the grid reference
+        azi_ref = getattr(
             self,
             f"azi_{self.azi_ref_lookup[self.header.azi_reference]}_rad"
         )
-        azi_temp[np.where(self.inc_rad == 0.0)] = (
-            vertical_section_azimuth
+        azi_vs_grid = vertical_section_azimuth + (
+            self.azi_grid_rad[0] - azi_ref[0]
         )
-        result = np.cos(
-            vertical_section_azimuth
-            - (azi_temp[1:] + azi_temp[:-1]) / 2
-        ) * self.hypot
+        n = np.asarray(self.n, dtype=float)
+        e = np.asarray(self.e, dtype=float)
 
-        result = np.cumsum(np.hstack(([0.0], result)))
-
-        return result
+        return (
+            (n - n[0]) * np.cos(azi_vs_grid)
+            + (e - e[0]) * np.sin(azi_vs_grid)
+        )
 
     def set_vertical_section(self, vertical_section_azimuth, deg=True):
         """
-- 
2.43.0


From 5c9ed0ed7fb1041593fd23a37cdc14b7ac7003b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 003/107] fix: store the vertical section azimuth in the header
 in radians

---
 welleng/survey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 05bd550..d019ab1 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1337,7 +1337,10 @@ class Survey:
             Indicates whether the vertical section azimuth parameter is in
             degrees or radians (True or False respectively).
         """
-        self.header.vertical_section_azimuth = vertical_section_azimuth
+        self.header.vertical_section_azimuth = (
+            math.radians(vertical_section_azimuth) if deg
+            else vertical_section_azimuth
+        )
         self.vertical_section = self.get_vertical_section(
             vertical_section_azimuth, deg
         )
-- 
2.43.0


From aa9354a9b7dddd2b9e26489404523b9e2488fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 004/107] fix: take build and turn rates from the toolface of
 the arriving curve

---
 welleng/survey.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index d019ab1..02a094d 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1029,12 +1029,16 @@ class Survey:
 
             self.toolface = np.concatenate((t1, np.array([t2[-1]])))
 
+            # the dls is that of the curve arriving at a station, so the rates
+            # need the toolface with which that curve arrives
+            toolface_end = np.concatenate((t1[:1], t2))
+
             curvature_turn = curvature_dls * (
-                np.sin(self.toolface) / np.sin(self.inc_rad)
+                np.sin(toolface_end) / np.sin(self.inc_rad)
             )
             self.turn_rate = self._curvature_to_rate(curvature_turn)
 
-            curvature_build = curvature_dls * np.cos(self.toolface)
+            curvature_build = curvature_dls * np.cos(toolface_end)
             self.build_rate = self._curvature_to_rate(curvature_build)
 
         # calculate plane normals
-- 
2.43.0


From 71e2a4e8eb32b654c52713d65c1621452cee0943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 005/107] fix: interpolate a survey without changing its
 header's azimuth reference

---
 welleng/survey.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 02a094d..d6d654d 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1505,7 +1505,7 @@ class Survey:
         survey_new[-1] = self.survey_deg[-1]
 
         # Update the new survey header as the new azimuth reference is 'grid'.
-        sh = self.header
+        sh = copy(self.header)
         sh.azi_reference = 'grid'
 
         # Create a new Survey instance
@@ -1897,7 +1897,7 @@ def _interpolate_survey(survey, x=0, index=0):
         )
     ).reshape(3, 3)
 
-    sh = survey.header
+    sh = copy(survey.header)
     sh.azi_reference = 'grid'
 
     s = Survey(
-- 
2.43.0


From 4ce3cadd8b152ed7005534de125c490ea5bf371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 006/107] fix: interpolate_survey for surveys in feet

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index d6d654d..4ff043d 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2776,7 +2776,8 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         step=step,
         start_xyz=survey.start_xyz,
         survey_header=survey.header,
-        error_model=None
+        error_model=None,
+        depth_unit=survey.unit
     )
 
     survey_interpolated.interpolated = [
-- 
2.43.0


From 254c4a16947da54b67e2b24d70eec3bf47bf9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 007/107] fix: interpolate_survey keeps covariances that no
 error model produced

---
 welleng/survey.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 4ff043d..2470e97 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2794,7 +2794,7 @@ def interpolate_survey(survey, step=30, dls=1e-8):
     ):
         if not boolean:
             i += 1
-            if survey.error_model is not None:
+            if survey.cov_nev is not None:
                 # interpolate covariance error between survey stations
                 j = 1 if i < len(survey.md) - 1 else 0
                 delta_md = survey.md[i + j] - survey.md[i]
@@ -2807,7 +2807,7 @@ def interpolate_survey(survey, step=30, dls=1e-8):
                     else 0
                 )
         radii.append(survey.radius[i])
-        if survey.error_model is not None:
+        if survey.cov_nev is not None:
             cov_nev.append(
                 survey.cov_nev[i]
                 + (
-- 
2.43.0


From 609b76e3ad0e30769717781f59353858ed38f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 008/107] fix: splice surveys that have a magnetic reference or
 are in feet

---
 welleng/survey.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 2470e97..76d6a2f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3096,14 +3096,18 @@ class SurveyData:
         self.header = survey.header
         self.md = survey.md
         self.inc = survey.inc_rad
-        self.azi = getattr(
-            survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-        )
+        self.azi = self._get_azi(survey)
         self.start_nev = survey.start_nev
         self.start_xyz = survey.start_xyz
         self.cov_nev = survey.cov_nev
         self.cov_hla = survey.cov_hla
         self.radius = survey.radius
+        self.unit = survey.unit
+
+    def _get_azi(self, survey):
+        """Azimuths (rad) of a survey in this instance's azimuth reference."""
+        reference = survey.azi_ref_lookup[self.header.azi_reference]
+        return getattr(survey, f"azi_{reference}_rad")
 
     def append_survey(self, survey):
         """
@@ -3119,9 +3123,7 @@ class SurveyData:
         self.azi = np.hstack(
             (
                 self.azi,
-                getattr(
-                    survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-                )[1:]
+                self._get_azi(survey)[1:]
             )
         )
         self.cov_nev = np.hstack(
@@ -3157,7 +3159,8 @@ class SurveyData:
             cov_nev=self.cov_nev,
             cov_hla=self.cov_hla,
             radius= self.radius,
-            header=self.header
+            header=self.header,
+            unit=self.unit
         )
         return survey
 
-- 
2.43.0


From 6f298a101934a132b2ce6840e3364e1b06e26899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 009/107] fix: splice surveys that have no covariances

---
 welleng/survey.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 76d6a2f..d3ff872 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3126,18 +3126,22 @@ class SurveyData:
                 self._get_azi(survey)[1:]
             )
         )
-        self.cov_nev = np.hstack(
-            (
-                self.cov_nev.reshape(-1),
-                survey.cov_nev[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
-        self.cov_hla = np.hstack(
-            (
-                self.cov_hla.reshape(-1),
-                survey.cov_hla[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
+        if self.cov_nev is None or survey.cov_nev is None:
+            # the uncertainty of the spliced well path isn't known
+            self.cov_nev, self.cov_hla = None, None
+        else:
+            self.cov_nev = np.hstack(
+                (
+                    self.cov_nev.reshape(-1),
+                    survey.cov_nev[1:].reshape(-1)
+                )
+            ).reshape(-1, 3, 3)
+            self.cov_hla = np.hstack(
+                (
+                    self.cov_hla.reshape(-1),
+                    survey.cov_hla[1:].reshape(-1)
+                )
+            ).reshape(-1, 3, 3)
         self.radius = np.hstack((self.radius, survey.radius[1:]))
 
     def get_survey(self):
-- 
2.43.0


From 50a3ce09aa69673da921bf5096781ed78fe8997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 010/107] fix: interpolate_survey_tvd keeps the azimuths, start
 position and unit

---
 welleng/survey.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index d3ff872..f53498c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2914,13 +2914,20 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         for n in nodes
     ]).T
 
+    # the nodes' azimuths are relative to grid
+    header = copy(survey.header)
+    header.azi_reference = 'grid'
+
     s_interp = Survey(
         md=md,
         inc=inc,
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=survey.header
+        header=header,
+        start_xyz=survey.start_xyz,
+        start_nev=survey.start_nev,
+        unit=survey.unit
     )
 
     return s_interp
-- 
2.43.0


From 48437d46a5e93bd67ccdf615e4b92d3e671cf53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 011/107] fix: maximum_curvature keeps the survey's unit

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index f53498c..74c2330 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1515,7 +1515,8 @@ class Survey:
             azi=survey_new[:, 2],
             header=sh,
             start_xyz=self.start_xyz,
-            start_nev=self.start_nev
+            start_nev=self.start_nev,
+            unit=self.unit
         )
 
         # Update the interpolated property to keep track of the original survey
-- 
2.43.0


From d1a26f758af66c4780c447b9bac1f9a1809a4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 012/107] fix: slice_survey keeps azimuths that aren't
 referenced to grid

---
 welleng/survey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 74c2330..09b647b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2096,7 +2096,10 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
     # Removing this start + 2 code - define this explicitly when making call 
     # if stop is None:
     #     stop = start + 2
-    md, inc, azi = survey.survey_rad[start:stop].T
+    md, inc = survey.survey_rad[start:stop, :2].T
+    # azimuths in the reference that the header declares
+    reference = survey.azi_ref_lookup[survey.header.azi_reference]
+    azi = getattr(survey, f"azi_{reference}_rad")[start:stop]
     nevs = np.array([survey.n, survey.e, survey.tvd]).T[start:stop]
     n, e, tvd = nevs.T
     # vec = survey.vec[start:stop]
-- 
2.43.0


From 7a4310d990903f91e9b7b48bef6db530487c1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 013/107] fix: project_to_target for surveys that aren't
 referenced to grid

---
 welleng/survey.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 09b647b..3698116 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3075,10 +3075,14 @@ def project_to_target(
             node_bit, node_target, dls_design
         )
     )
+    # the connectors' azimuths are relative to grid
+    header = copy(survey.header)
+    header.azi_reference = 'grid'
+
     survey_to_target = from_connections(
         connectors,
         step=step,
-        survey_header=survey.header,
+        survey_header=header,
         start_cov_nev=cov_nev,
         radius=survey.radius[-1], deg=False, error_model=survey.error_model,
         depth_unit=survey.header.depth_unit,
-- 
2.43.0


From 7cdfa4b53711e84b385edf971ec4a86d7132ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 014/107] fix: interpolate_survey recognises original stations
 despite rounding of md

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 3698116..c0ddbf4 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2784,8 +2784,9 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         depth_unit=survey.unit
     )
 
+    # the connectors' mds can be off by a rounding error
     survey_interpolated.interpolated = [
-        False if md in survey.md else True
+        not np.isclose(survey.md, md, rtol=0, atol=1e-6).any()
         for md in survey_interpolated.md
     ]
 
-- 
2.43.0


From 5c267567465b0cc079b9a0ec9f9734a2573fd161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 015/107] fix: interpolate at a tvd by solving for the depth
 within the interval

---
 welleng/survey.py | 187 +++++++++++++++++++++-------------------------
 1 file changed, 85 insertions(+), 102 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index c0ddbf4..a613309 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -18,7 +18,7 @@ except ImportError:
 from datetime import datetime
 from pyproj import CRS, Proj, Transformer
 from pyproj.enums import TransformDirection
-from scipy.optimize import minimize
+from scipy.optimize import brentq, minimize
 from scipy.spatial.transform import Rotation as R
 
 from .version import __version__
@@ -1972,107 +1972,82 @@ def interpolate_tvd(survey, tvd, **kwargs):
     Node
         A Node at the interpolated TVD position.
     """
-    # only seem to work with relative small delta_md - re-write with minimize
-    # function?
-
-    def tidy_up_angle(d):
-        """
-        Helper function to handle large angles.
-        """
-        if abs(d) > np.pi:
-            d %= (2 * np.pi)
-        return d
-
-    coeff = 1
-    # find closest point assuming tvd is sorted list
-    idx = np.searchsorted(survey.tvd, tvd, side="right") - 1
-    if idx == len(survey.tvd) - 1:
-        idx = len(survey.tvd) - 2
-    elif idx == -1:
-        idx = len(survey.tvd) - 2
-        coeff = -1
-    pos1, pos2 = np.array([survey.n, survey.e, survey.tvd]).T[idx: idx + 2]
-    vec1, vec2 = survey.vec_nev[idx: idx + 2]
-    dogleg = survey.dogleg[idx + 1]
-    delta_md = survey.delta_md[idx + 1]
-
     node_origin = kwargs.get('node_origin')
-    if node_origin:
-        pos1, vec1 = node_origin.pos_nev, node_origin.vec_nev
-        delta_md = survey.md[idx + 1] - node_origin.md
-        # TODO: need to recalculate the dogleg
-        s_temp = Survey(
-            md=[node_origin.md, survey.md[idx + 1]],
-            inc=[node_origin.inc_rad, survey.inc_rad[idx + 1]],
-            azi=[node_origin.azi_rad, survey.azi_grid_rad[idx + 1]],
-            deg=False
+    tvds = np.asarray(survey.tvd, dtype=float)
+    vec_v = np.asarray(survey.vec_nev, dtype=float)[:, 2]
+
+    for idx in range(len(tvds) - 1):
+        delta_md = survey.delta_md[idx + 1]
+        x_start = (
+            0. if node_origin is None
+            else max(0., node_origin.md - survey.md[idx])
         )
-        dogleg = s_temp.dogleg[-1]
-
-    if np.isnan(dogleg):
-        return _interpolate_survey(survey, x=0, index=idx)
+        if x_start > delta_md:
+            continue
 
-    if dogleg == 0:
-        x = (
-            (
-                tvd - survey.tvd[idx]
-            )
-            / (survey.tvd[idx + 1] - survey.tvd[idx])
-        ) * (survey.md[idx + 1] - survey.md[idx])
-    else:
-        m = np.array([0., 0., coeff])
-        a = np.dot(m, vec1) * np.sin(dogleg)
-        b = np.dot(m, vec1) * np.cos(dogleg) - np.dot(m, vec2)
-        # p = get_unit_vec(np.array([0., 0., tvd]) - pos1)
-        p = np.array([0., 0., tvd]) - pos1
-        c = (
-            np.dot(m, p)
-            * dogleg
-            * np.sin(dogleg)
-            / delta_md
-        ) + b
-
-        d1 = 2 * np.arctan2(
-            (
-                a + (a ** 2 + b ** 2 - c ** 2) ** 0.5
-            ),
-            (
-                b + c
+        # the well path can turn between up and down within an interval
+        if vec_v[idx] * vec_v[idx + 1] < 0:
+            dogleg = survey.dogleg[idx + 1]
+            x_turn = delta_md / dogleg * math.atan2(
+                vec_v[idx] * math.sin(dogleg),
+                vec_v[idx] * math.cos(dogleg) - vec_v[idx + 1]
             )
-        )
-        d1 = tidy_up_angle(d1)
-
-        d2 = 2 * np.arctan2(
-            (
-                a - (a ** 2 + b ** 2 - c ** 2) ** 0.5
-            ),
-            (
-                b + c
-            )
-        )
-        d2 = tidy_up_angle(d2)
-
-        assert d1 >= 0 or d2 >= 0
-        if d1 < 0:
-            d = d2
-        elif d2 < 0:
-            d = d1
+            limits = [x_start] + [
+                x for x in (x_turn, delta_md) if x > x_start
+            ]
         else:
-            d = min(d1, d2)
+            limits = [x_start, delta_md]
 
-        x = d / dogleg * delta_md
+        for x1, x2 in zip(limits[:-1], limits[1:]):
+            x = _get_x_from_tvd(survey, tvd, idx, x1, x2)
+            if x is not None:
+                interpolated_survey = _interpolate_survey(
+                    survey, x=x, index=idx
+                )
+                return get_node(
+                    interpolated_survey, 1,
+                    interpolated=interpolated_survey.interpolated[1]
+                )
 
-        if node_origin:
-            x -= survey.md[idx] - node_origin.md
+    # beyond a tangent section at the end of the well
+    idx = len(tvds) - 2
+    assert survey.dogleg[idx + 1] == 0 and tvds[idx] != tvds[idx + 1], (
+        "tvd is outside the range of the survey"
+    )
+    x = (
+        (tvd - tvds[idx]) / (tvds[idx + 1] - tvds[idx])
+        * survey.delta_md[idx + 1]
+    )
+    interpolated_survey = _interpolate_survey(survey, x=x, index=idx)
 
-        assert x <= delta_md
+    return get_node(interpolated_survey, 1, interpolated=True)
 
-    interpolated_survey = _interpolate_survey(survey, x=x, index=idx)
 
-    interpolated = True if x > 0 else False
-    node = get_node(interpolated_survey, 1, interpolated=interpolated)
+def _get_x_from_tvd(survey, tvd, index, x1, x2):
+    """
+    The distance from ``survey[index]`` at which the well path is at ``tvd``,
+    between the distances ``x1`` and ``x2`` from that station, or None if the
+    tvds at ``x1`` and ``x2`` don't bracket ``tvd``.
+    """
+    delta_md = survey.delta_md[index + 1]
+
+    def diff(x):
+        # use the stations' own positions at the ends of the interval
+        if x == 0:
+            return survey.tvd[index] - tvd
+        if x == delta_md:
+            return survey.tvd[index + 1] - tvd
+        return _interpolate_pos_nev(survey, x, index)[2] - tvd
+
+    d1, d2 = diff(x1), diff(x2)
+    if d1 == 0:
+        return x1
+    if d2 == 0:
+        return x2
+    if d1 * d2 > 0:
+        return None
 
-    return node
+    return brentq(diff, x1, x2, xtol=1e-10)
 
 
 def slice_survey(survey: Survey, start: int, stop: int = None):
@@ -2831,7 +2806,7 @@ def interpolate_survey(survey, step=30, dls=1e-8):
 
 
 def get_node_tvd(survey, node1, node2, tvd, node_origin):
-    """Connect two nodes and interpolate to a target TVD.
+    """Interpolate a survey to a target TVD between two of its nodes.
 
     Parameters
     ----------
@@ -2840,23 +2815,29 @@ def get_node_tvd(survey, node1, node2, tvd, node_origin):
     node1 : Node
         Start node.
     node2 : Node
-        End node (position is cleared and recomputed via Connector).
+        End node, in the same survey interval as the start node.
     tvd : float
         Target true vertical depth.
     node_origin : Node
-        Origin node for the interpolation reference.
+        Not used.
 
     Returns
     -------
     Node
         A Node at the target TVD between the two input nodes.
     """
-    node2.pos_nev, node2.pos_xyz = None, None
-    c = Connector(node1=node1, node2=node2, dls_design=1e-8)
-    s = from_connections(c, step=None)
-    node_new = interpolate_tvd(s, tvd, node_origin=node_origin)
+    idx = int(np.searchsorted(survey.md, node2.md, side="left")) - 1
+    x = _get_x_from_tvd(
+        survey, tvd, idx,
+        node1.md - survey.md[idx], node2.md - survey.md[idx]
+    )
+    if x is None:
+        # tvd is (but for a rounding error) that of one of the nodes
+        node = min((node1, node2), key=lambda n: abs(n.pos_nev[2] - tvd))
+        x = node.md - survey.md[idx]
+    s = _interpolate_survey(survey, x=x, index=idx)
 
-    return node_new
+    return get_node(s, 1, interpolated=True)
 
 
 def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
@@ -2892,7 +2873,7 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         while 1:
             node1 = nodes[-1]
             node2 = copy(node2_master)
-            if np.isclose(node1.md, md2):
+            if np.isclose(node1.md, md2, rtol=0, atol=1e-6):
                 node1.interpolated = False
                 break
 
@@ -2901,13 +2882,15 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
                 tvd = tvds[-1]
                 node_new = get_node_tvd(survey, node1, node2, tvd, node_origin)
                 node_new.interpolated = True
-                nodes.append(node_new)
+                if not np.isclose(node_new.md, node1.md, rtol=0, atol=1e-6):
+                    nodes.append(node_new)
                 tvds.append(tvd - step)
             elif node1.pos_nev[2] < (tvds[-1] + step) <= node2.pos_nev[2]:
                 tvd = tvds[-1] + step
                 node_new = get_node_tvd(survey, node1, node2, tvd, node_origin)
                 node_new.interpolated = True
-                nodes.append(node_new)
+                if not np.isclose(node_new.md, node1.md, rtol=0, atol=1e-6):
+                    nodes.append(node_new)
                 tvds.append(tvd)
             else:
                 nodes.append(node2_master)
-- 
2.43.0


From 42f49dacd81b43764de57100f57fb5aa812e5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 016/107] fix: don't reverse the caller's vector when
 transforming an Arc to a target

---
 welleng/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ef36bdc..758b8b8 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -592,7 +592,7 @@ class Arc:
         if vec is None:
             vec = np.array([0., 0., 1.])
         if target:
-            vec *= -1
+            vec = np.multiply(vec, -1)
         inc, azi = get_angles(vec, nev=True).reshape(2)
         angles = [
             toolface,
-- 
2.43.0


From 6a3a22a092ebb1e0b60b513af84bdb508007fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 017/107] fix: don't add the start covariance into the caller's
 covariance array

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a613309..3f40760 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -970,7 +970,7 @@ class Survey:
             self.start_cov_nev is not None
             and self.cov_nev is not None
         ):
-            self.cov_nev += self.start_cov_nev
+            self.cov_nev = self.cov_nev + self.start_cov_nev
             self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
 
     def _curvature_to_rate(self, curvature):
-- 
2.43.0


From 91fceb54a4635c446079aefbc3ce2540b854461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 018/107] fix: decimal2dms keeps the sign below one degree and
 never returns 60 seconds

---
 welleng/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 758b8b8..919188b 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -708,16 +708,24 @@ def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
         direction = None
     _decimal = float(_decimal)
     minutes, seconds = divmod(abs(_decimal) * 3600, 60)
-    _, minutes = divmod(minutes, 60)
+    if ndigits is not None:
+        seconds = round(seconds, ndigits)
+        if seconds >= 60:  # rounded up to a whole minute
+            minutes, seconds = minutes + 1, 0.0
+    degrees, minutes = divmod(minutes, 60)
+    degrees = int(degrees)
+    if _decimal < 0:
+        # minus zero keeps the sign of angles between -1 and 0 degrees
+        degrees = -degrees if degrees else -0.0
 
     return np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits)
+        seconds
     ]) if direction is None else np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits),
+        seconds,
         direction
     ], dtype=object)
 
-- 
2.43.0


From 44b58e228360c60361c9ee4524fdec7805ed35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 019/107] fix: dms_from_string reads negative degrees

---
 welleng/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 919188b..2f7e73d 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -875,7 +875,7 @@ def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
 def dms_from_string(text):
     """Extracts the values from a string dms x or y or northing or easting.
     """
-    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
+    pattern = re.compile(r'(-?\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
     matches = pattern.findall(text)
 
     if matches:
-- 
2.43.0


From d6fb65ca1b6f12bd8b7147230f35daf180d8e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 020/107] fix: load the JSON tool model of the requested short
 name (floating rig gyros)

---
 welleng/errors/tool_errors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ea036c2..0218e19 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -173,7 +173,12 @@ class ToolError:
         # default), so we walk the iscwsa_json/ tree looking at both
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
-        json_filename = _resolve_json_model(model)
+        # The Short Name is unique, whereas a tool and its floating rig
+        # variant share the OWSG prefix.
+        json_filename = (
+            _resolve_json_model(error.error_model)
+            or _resolve_json_model(model)
+        )
 
         self._json_path = None
         if os.path.isfile(yaml_filename):
-- 
2.43.0


From 4b9182299e7f2cf9bcd21af7ca0b26586b4e024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 021/107] fix: propagate the well-by-well terms of JSON tool
 models

---
 welleng/errors/tool_errors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 0218e19..30d4f7f 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -13,12 +13,13 @@ from .interpreter import evaluate_formula
 
 
 # Map ISCWSA JSON propagation_mode enum -> the lowercase string the
-# legacy welleng dispatch expects.
+# legacy welleng dispatch expects (the YAML models list well-by-well terms as
+# within_pad).
 _JSON_PROP_TO_LEGACY = {
     "Random": "random",
     "Systematic": "systematic",
     "Global": "global",
-    "Well": "well",
+    "Well": "within_pad",
 }
 
 
-- 
2.43.0


From a08034afab9e865f4addc81c142b12b4d13202a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 022/107] fix: use the default tortuosity for INC-ONLY models,
 which don't list one

---
 welleng/errors/tool_errors.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 30d4f7f..49d788f 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -205,13 +205,12 @@ class ToolError:
         # self.em = iscwsa_error_models[model]
         if 'Default Tortusity (rad/m)' in self.em['header']:
             self.tortuosity = self.em['header']['Default Tortusity (rad/m)']
-        elif 'XCL Tortuosity' in self.em['header']:
-            # assuming that this is always 1 deg / 100 ft but this might not
-            # be the case
+        else:
+            # assuming that 'XCL Tortuosity' is always 1 deg / 100 ft (also
+            # for the models with XCL terms that don't list it) but this might
+            # not be the case
             # TODO use pint to handle this string inputs
             self.tortuosity = (np.radians(1.) / 100) * 3.281
-        else:
-            self.tortuosity = None
 
         # if model == "iscwsa_mwd_rev5":
         # if model == "ISCWSA MWD Rev5":
-- 
2.43.0


From 11a6e5ebf0da7ed6d76231c045dae70809e099c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 023/107] fix: CNA at vertical stations uses the true azimuth,
 as the other terms do

---
 welleng/errors/tool_errors.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 49d788f..38c21d7 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -942,16 +942,12 @@ def CNA(
         e_NEV = error._e_NEV(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.drdp_sing['azi2'])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.drdp_sing['azi2'])
             * mag
         )
         v = np.zeros_like(n)
@@ -967,16 +963,12 @@ def CNA(
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * -sin(error.drdp_sing['azi2'])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            * cos(error.drdp_sing['azi2'])
             * mag
         )
         e_NEV_star_sing = np.vstack(
-- 
2.43.0


From b2241ab50dd983bb5541744021876dfc14ec29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 024/107] fix: vertical stations at the end of a survey keep
 their azimuth and misalignment errors

---
 welleng/error.py              |  7 ++++-
 welleng/errors/tool_errors.py | 48 ++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/welleng/error.py b/welleng/error.py
index 28a8154..3cd6092 100644
--- a/welleng/error.py
+++ b/welleng/error.py
@@ -523,10 +523,15 @@ class ErrorModel():
         double_delta_md = md3 - md1
         delta_md = md2 - md1
 
+        # the interval that ends at each station after the first
+        md, _, azi = np.array(survey).T
+
         return dict(
             double_delta_md=double_delta_md,
             delta_md=delta_md,
-            azi2=azi2
+            azi2=azi2,
+            last_delta_md=np.diff(md),
+            last_azi=azi[1:]
         )
 
 
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 38c21d7..994cae5 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -605,19 +605,18 @@ def ABIXY_TI2(
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = np.array(
-            0.5 * error.drdp_sing['delta_md']
-                * -sin(error.drdp_sing['azi2']) * mag
+            0.5 * error.drdp_sing['last_delta_md']
+                * -sin(error.drdp_sing['last_azi']) * mag
             ) / error.survey.header.G
         e = np.array(
-            0.5 * error.drdp_sing['delta_md']
-                * cos(error.drdp_sing['azi2']) * mag
+            0.5 * error.drdp_sing['last_delta_md']
+                * cos(error.drdp_sing['last_azi']) * mag
             ) / error.survey.header.G
         v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
 
@@ -691,19 +690,18 @@ def ABXY_TI2(
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = np.array(
-            0.5 * error.drdp_sing['delta_md']
-                * -sin(error.drdp_sing['azi2']) * mag
+            0.5 * error.drdp_sing['last_delta_md']
+                * -sin(error.drdp_sing['last_azi']) * mag
             ) / error.survey.header.G
         e = np.array(
-            0.5 * error.drdp_sing['delta_md']
-                * cos(error.drdp_sing['azi2']) * mag
+            0.5 * error.drdp_sing['last_delta_md']
+                * cos(error.drdp_sing['last_azi']) * mag
             ) / error.survey.header.G
         v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
@@ -962,20 +960,20 @@ def CNA(
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = (
-            np.array(0.5 * error.drdp_sing['delta_md'])
-            * -sin(error.drdp_sing['azi2'])
+            np.array(0.5 * error.drdp_sing['last_delta_md'])
+            * -sin(error.drdp_sing['last_azi'])
             * mag
         )
         e = (
-            np.array(0.5 * error.drdp_sing['delta_md'])
-            * cos(error.drdp_sing['azi2'])
+            np.array(0.5 * error.drdp_sing['last_delta_md'])
+            * cos(error.drdp_sing['last_azi'])
             * mag
         )
+        v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1404,14 +1402,13 @@ def XYM3(
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
-        n = np.array(0.5 * error.drdp_sing['delta_md'] * mag)
-        e = np.zeros(len(error.drdp_sing['delta_md']))
+        n = np.array(0.5 * error.drdp_sing['last_delta_md'] * mag)
+        e = np.zeros(len(error.drdp_sing['last_delta_md']))
         v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1522,14 +1519,13 @@ def XYM4(
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
-        n = np.zeros(len(error.drdp_sing['delta_md']))
-        e = np.array(0.5 * error.drdp_sing['delta_md'] * mag)
+        n = np.zeros(len(error.drdp_sing['last_delta_md']))
+        e = np.array(0.5 * error.drdp_sing['last_delta_md'] * mag)
         v = np.zeros_like(n)
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
-- 
2.43.0


From 7dd6a14674a7a62d76a8fc7c9e6c674160564188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 025/107] fix: XYM3L and XYM4L weigh vertical stations by their
 own course length

---
 welleng/errors/tool_errors.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 994cae5..9db5817 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1776,7 +1776,7 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             * mag
         )
         e_NEV_sing[1, 0] = (
-            coeff[1]
+            coeff[0]
             * (
                 error.survey.md[2] + error.survey.md[1]
                 - 2 * error.survey.md[0]
@@ -1797,7 +1797,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 0] = (
-            (
+            coeff
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
@@ -1806,7 +1807,8 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         # Rev 5.11 "funny stuff": at SING station 1 the workbook uses the full
         # first interval, not the halved value (see ABXY precedent at line ~409).
         e_NEV_star_sing[1, 0] = (
-            (error.survey.md[1] - error.survey.md[0])
+            coeff[0]
+            * (error.survey.md[1] - error.survey.md[0])
             * mag
         )
 
@@ -1890,14 +1892,16 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
         e_NEV_star_sing[1:, 1] = (
-            (
+            coeff[1:]
+            * (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
             * mag
         )
         e_NEV_star_sing[1, 1] = (
-            (
+            coeff[1]
+            * (
                 error.survey.md[1]
                 - error.survey.md[0]
             )
-- 
2.43.0


From 68cec7e5cc60e71c8c754047097666f8530782d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 026/107] fix: XYM3E keeps the sign of cos(azi), so its
 inclination and azimuth errors correlate

---
 welleng/errors/tool_errors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 9db5817..07ab141 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1434,8 +1434,9 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     ), axis=-1), axis=-1)
 
     dpde = np.zeros((len(error.survey.md), 3))
-    dpde[1:, 1] = np.absolute(
-        cos(error.survey.inc_rad[1:])
+    # ABS(COS(inc)) only, cos(azi) keeps its sign (see XYM3L).
+    dpde[1:, 1] = (
+        np.absolute(cos(error.survey.inc_rad[1:]))
         * cos(error.survey.azi_true_rad[1:])
         * coeff[1:]
     )
-- 
2.43.0


From ff639934721641f30c1d99ed3725bfb9b099ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 027/107] fix: XYM3E and XYM4E at vertical stations don't
 depend on the azimuth

---
 welleng/errors/tool_errors.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 07ab141..4c9582d 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1465,13 +1465,20 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
         return error._generate_error(code, e_DIA, propagation, NEV)
     else:
         e_NEV = error._e_NEV(e_DIA)
-        e_NEV_sing = np.zeros_like(e_NEV)
-        e_NEV_sing[:, 0] = e_NEV[:, 0]
+        # the north error at vertical doesn't depend on the azimuth
+        md = error.survey.md
+        e_NEV_star_sing = np.zeros_like(e_NEV)
+        e_NEV_star_sing[1:, 0] = (md[1:] - md[:-1]) / 2
+        # the first interval counts in full (see XYM3L)
+        e_NEV_star_sing[1, 0] *= 2
+        e_NEV_sing = e_NEV_star_sing.copy()
+        e_NEV_sing[1:-1, 0] += (md[2:] - md[1:-1]) / 2
+
+        e_NEV_sing *= (coeff * mag)[:, None]
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
-        e_NEV_star_sing = np.zeros_like(e_NEV_star)
-        e_NEV_star_sing[:, 0] = e_NEV_star[:, 0]
+        e_NEV_star_sing *= (coeff * mag)[:, None]
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
-- 
2.43.0


From 44cd6458dd4d504c5050c898a07180dc778a9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 028/107] fix: error models for surveys of two stations that
 are vertical

---
 welleng/errors/tool_errors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 4c9582d..2cf70fb 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -594,7 +594,7 @@ def ABIXY_TI2(
 
         e_NEV_sing[1, 1] = (
             (
-                error.survey.md[2]
+                error.survey.md[:3][-1]
                 + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
@@ -679,7 +679,7 @@ def ABXY_TI2(
         if error.error_model.lower().split(' ')[-1] != 'rev4':
             e_NEV_sing[1, 1] = (
                 (
-                    error.survey.md[2]
+                    error.survey.md[:3][-1]
                     + error.survey.md[1]
                     - 2 * error.survey.md[0]
                 ) / 2
@@ -1786,7 +1786,7 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_sing[1, 0] = (
             coeff[0]
             * (
-                error.survey.md[2] + error.survey.md[1]
+                error.survey.md[:3][-1] + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
             * mag
@@ -1881,7 +1881,7 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_sing[1, 1] = (
             coeff[1]
             * (
-                error.survey.md[2] + error.survey.md[1]
+                error.survey.md[:3][-1] + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
             * mag
-- 
2.43.0


From aca120a30e46abd504809172d8fc967548ae715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 029/107] fix: resolve error model covariances in grid north,
 the frame of the positions

---
 welleng/survey.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 3f40760..b9a987a 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -953,11 +953,25 @@ class Survey:
                 error_model=self.error_model
             )
             self.cov_hla = self.err.errors.cov_HLAs
-            self.cov_nev = self.err.errors.cov_NEVs
-            self.cov_nev_random = self.err.errors.cov_NEVs_random
-            self.cov_nev_systematic = self.err.errors.cov_NEVs_systematic
-            self.cov_nev_global = self.err.errors.cov_NEVs_global
-            self.cov_nev_within_pad = self.err.errors.cov_NEVs_within_pad
+            # the error model works in true north, the survey in grid north
+            conv = self.header.convergence
+            rot = np.array([
+                [np.cos(conv), np.sin(conv), 0.],
+                [-np.sin(conv), np.cos(conv), 0.],
+                [0., 0., 1.]
+            ])
+            (
+                self.cov_nev, self.cov_nev_random, self.cov_nev_systematic,
+                self.cov_nev_global, self.cov_nev_within_pad
+            ) = (
+                rot @ cov @ rot.T for cov in (
+                    self.err.errors.cov_NEVs,
+                    self.err.errors.cov_NEVs_random,
+                    self.err.errors.cov_NEVs_systematic,
+                    self.err.errors.cov_NEVs_global,
+                    self.err.errors.cov_NEVs_within_pad
+                )
+            )
         else:
             if self.cov_nev is not None and self.cov_hla is None:
                 self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
-- 
2.43.0


From dec2f66dd5738239a75dab085f0f7b793d5b9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 030/107] fix: ABIZ is divided by gravity, not multiplied by it

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 2cf70fb..591b07a 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -484,7 +484,7 @@ def DST(
 def ABIZ(
     code, error, mag=0.0040, propagation='systematic', NEV=True, **kwargs
 ):
-    denom = _funky_denominator(error) / error.survey.header.G
+    denom = _funky_denominator(error) * error.survey.header.G
     denom = np.where(denom > ACCURACY, denom, ACCURACY)
 
     dpde = np.zeros((len(error.survey_rad), 3))
-- 
2.43.0


From 2a8568c0e77f4ed29a82104339e93b82b5d90fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 031/107] fix: formulas can't overwrite their bindings through
 a surplus argument

---
 welleng/errors/interpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/welleng/errors/interpreter.py b/welleng/errors/interpreter.py
index 062d805..bcb2144 100644
--- a/welleng/errors/interpreter.py
+++ b/welleng/errors/interpreter.py
@@ -92,6 +92,12 @@ def _validate(tree: ast.AST) -> None:
                 raise ValueError("only direct function calls allowed")
             if node.func.id not in _ALLOWED_FUNCS:
                 raise ValueError(f"function {node.func.id!r} not whitelisted")
+            # a surplus argument is numpy's ``out``: it would be overwritten
+            nargs = 2 if node.func.id in ("maximum", "minimum") else 1
+            if len(node.args) != nargs:
+                raise ValueError(
+                    f"function {node.func.id!r} takes {nargs} argument(s)"
+                )
         if isinstance(node, ast.Name) and node.id == "__builtins__":
             raise ValueError("__builtins__ access forbidden")
 
-- 
2.43.0


From b6720a15c3252e3f8d678d1b00e9912d99707c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 032/107] fix: minimising the separation factor leaves the
 caller's survey header alone

---
 welleng/clearance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 8de993c..2c4644d 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -531,7 +531,8 @@ class IscwsaClearance(Clearance):
 
                 node = self.ref.interpolate_md(md)
 
-                sh = self.ref.header
+                # don't change the header of the caller's survey
+                sh = deepcopy(self.ref.header)
                 sh.azi_reference = 'grid'
 
                 survey = Survey(
-- 
2.43.0


From 170c2adffeda88148d1d92a383fbbf63d32f656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 033/107] fix: resolve the covariances below a kick off point
 in grid north

---
 welleng/clearance.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 2c4644d..10bfac6 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -165,7 +165,15 @@ class Clearance:
                         - error.cov_NEV[ki:ki + 1]
                     )
 
-        return cov_below  # (n_below, 3, 3)
+        # the error model works in true north, the survey in grid north
+        conv = self.reference.header.convergence
+        rot = np.array([
+            [np.cos(conv), np.sin(conv), 0.],
+            [-np.sin(conv), np.cos(conv), 0.],
+            [0., 0., 1.]
+        ])
+
+        return rot @ cov_below @ rot.T  # (n_below, 3, 3)
 
     def _get_ref(self):
         if self.kop_index == 0:
-- 
2.43.0


From 1e63cde891480e1477569c51f8c546dd2d8f5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 034/107] fix: closest point on an offset well with long survey
 intervals

---
 welleng/clearance.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 10bfac6..5444163 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -625,6 +625,11 @@ class IscwsaClearance(Clearance):
         reference well.
         """
         closest = []
+        delta_md = np.diff(self.offset.md)
+        distances = cdist(self.ref_nevs, self.offset_nevs)
+        # no point of an interval can be closer than this
+        bounds = (distances[:, :-1] + distances[:, 1:] - delta_md) / 2
+
         for j, (i, station) in enumerate(zip(
             self.idx, self.ref_nevs.tolist()
         )):
@@ -672,6 +677,31 @@ class IscwsaClearance(Clearance):
                     sigma_new_2
                 ))
 
+            # a (longer) interval that isn't next to the closest station may
+            # come closer
+            for index in np.flatnonzero(bounds[j] < closest[-1][2].fun):
+                if index in (i - 1, i):
+                    continue
+                res = optimize.minimize(
+                    self._fun,
+                    delta_md[index] / 2,
+                    method='Powell',
+                    bounds=[(0, delta_md[index])],
+                    args=(self.offset, index, station)
+                )
+                if res.fun < closest[-1][2].fun:
+                    closest[-1] = (
+                        station,
+                        _interpolate_survey(self.offset, res.x[0], index),
+                        res,
+                        self._interpolate_covs(
+                            index + 1, res.x[0] / delta_md[index]
+                        )
+                    )
+                    self.idx[j] = index + int(
+                        distances[j, index + 1] < distances[j, index]
+                    )
+
         self.closest = closest
         md, inc, azi, n, e, tvd, x, y, z,  = np.array([
             [
-- 
2.43.0


From 6b0c903cab24d3b0f261622f7deb596c7e6cecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 035/107] fix: minimising SF works for surveys in feet

---
 welleng/clearance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 5444163..e2d96b9 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -565,7 +565,8 @@ class IscwsaClearance(Clearance):
                     radius=np.insert(
                         self.ref.radius, i, self.ref.radius[i]
                     ),
-                    header=sh
+                    header=sh,
+                    unit=self.ref.unit
                 )
 
                 self.ref = survey
-- 
2.43.0


From 01ecf573ff53a9994295e839cbd69e78457ff574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 036/107] fix: clearance passes grid azimuths on as grid
 azimuths

---
 welleng/clearance.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index e2d96b9..80a8390 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -196,6 +196,9 @@ class Clearance:
                 )
             except (IndexError, AttributeError):
                 cov_nev, cov_hla = (None, None)
+            # the azimuths passed on are grid, whatever the caller's reference
+            header = deepcopy(self.reference.header)
+            header.azi_reference = 'grid'
             self.ref = Survey(
                 md=self.reference.md[self.kop_index:],
                 inc=self.reference.inc_rad[self.kop_index:],
@@ -205,7 +208,7 @@ class Clearance:
                 tvd=self.reference.tvd[self.kop_index:],
                 vec=self.reference.vec_nev[self.kop_index:],
                 radius=self.reference.radius[self.kop_index:],
-                header=self.reference.header,
+                header=header,
                 cov_nev=cov_nev,
                 cov_hla=cov_hla,
                 error_model=None,
@@ -733,6 +736,10 @@ class IscwsaClearance(Clearance):
             for r in self.closest
         ])
 
+        # the azimuths passed on are grid, whatever the caller's reference
+        header = deepcopy(self.offset.header)
+        header.azi_reference = 'grid'
+
         self.off = Survey(
             md=md,
             inc=inc,
@@ -740,7 +747,7 @@ class IscwsaClearance(Clearance):
             n=n,
             e=e,
             tvd=tvd,
-            header=self.offset.header,
+            header=header,
             error_model=None,
             cov_hla=cov_hla,
             cov_nev=cov_nev,
-- 
2.43.0


From a7b5d6e95c9158b4006183cfca2a569dabdbb14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 037/107] fix: interpolated nodes carry the survey's covariance

---
 welleng/survey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index b9a987a..fe96c2a 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1824,6 +1824,10 @@ def get_node(survey, idx, interpolated=False):
         md=survey.md[idx],
         unit=survey.unit,
         nev=True,
+        cov_nev=(
+            None if survey.cov_nev is None
+            else survey.cov_nev[idx].reshape(1, 3, 3).copy()
+        ),
         interpolated=interpolated
     )
     return node
-- 
2.43.0


From a3f9abaed0a2a8424a29b24c421fe0c6a528dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 038/107] fix: minimising SF searches every offset interval
 that may be closest

---
 welleng/clearance.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 80a8390..a81ce31 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -444,30 +444,34 @@ class IscwsaClearance(Clearance):
         ).reshape(3, 3)
         ref_r = self.Rr[ii + 1]
 
-        # Find closest point on offset in the two intervals around self.idx[i]
+        # Find closest point on offset, most promising intervals first (no
+        # point of an interval can be closer than its bound)
         off_cov_src = self.offset.cov_nev
-        off_idx = self.idx[i]
-        n_off = len(self.offset.md)
+        off_delta_md = np.diff(self.offset.md)
+        distances = norm(self.offset_nevs - ref_pos, axis=-1)
+        bounds = (distances[:-1] + distances[1:] - off_delta_md) / 2
 
         best_dist = np.inf
         best_u = None
         best_off_cov = None
         best_off_r = None
 
-        for oi in range(max(0, off_idx - 1), min(off_idx + 1, n_off - 2) + 1):
-            bound = self.offset.md[oi + 1] - self.offset.md[oi]
-            res = optimize.minimize(
+        for oi in np.argsort(bounds):
+            if bounds[oi] >= best_dist:
+                break
+            bound = off_delta_md[oi]
+            res = optimize.minimize_scalar(
                 lambda t, _oi=oi: norm(
-                    _interpolate_pos_nev(self.offset, t[0], _oi) - ref_pos
+                    _interpolate_pos_nev(self.offset, t, _oi) - ref_pos
                 ),
-                [bound / 2],
-                method='Powell',
-                bounds=[(0, bound)],
+                method='bounded',
+                bounds=(0, bound),
+                options={'xatol': 1e-6}
             )
             if res.fun < best_dist:
                 best_dist = res.fun
-                off_pos = _interpolate_pos_nev(self.offset, res.x[0], oi)
-                t_mult = res.x[0] / bound if bound > 0 else 0.0
+                off_pos = _interpolate_pos_nev(self.offset, res.x, oi)
+                t_mult = res.x / bound if bound > 0 else 0.0
                 best_u = off_pos - ref_pos
                 best_off_cov = (
                     off_cov_src[oi]
-- 
2.43.0


From 489053cd6500cd271e31f52105c948ee98bfa600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 039/107] fix: sliced_mesh works with its default method

---
 welleng/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 0d5080e..44a17ba 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -431,7 +431,7 @@ def sliced_mesh(
     start=0,
     stop=-1,
     step=1,
-    method="mesh_ellipse",
+    method="ellipse",
 ):
     """
     Generates a list of mesh objects of a user defined length.
-- 
2.43.0


From 35011da93c7069a4c96578d7c7b4f22e03ba402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 040/107] fix: MeshClearance uses the sigma_pa it's given

---
 welleng/clearance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index a81ce31..088f4b6 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -999,6 +999,7 @@ class MeshClearance(Clearance):
             survey=survey,
             n_verts=self.n_verts,
             sigma=self.sigma,
+            sigma_pa=self.sigma_pa,
             Sm=Sm,
         )
 
-- 
2.43.0


From 444e041dd85057693dde377b4b6315c5fff6df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 041/107] fix: MeshClearance reports a well wholly inside the
 other as a collision

---
 welleng/clearance.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 088f4b6..190bd3e 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -1027,6 +1027,16 @@ class MeshClearance(Clearance):
                 m, return_names=self.return_data, return_data=self.return_data
             )
 
+            # surfaces don't meet when one well is wholly inside the other
+            if not np.any(collision[0] if self.return_data else collision):
+                if (
+                    _is_inside(self.off_mesh, m.vertices[0])
+                    or _is_inside(m, self.off_mesh.vertices[0])
+                ):
+                    collision = (
+                        (True, {"offset"}, []) if self.return_data else True
+                    )
+
             if self.return_data:
                 distance = self.cm.min_distance_single(
                     m, return_name=True, return_data=True
@@ -1148,6 +1158,24 @@ class MeshClearance(Clearance):
         return (nev, res)
 
 
+def _is_inside(mesh, point):
+    """
+    Determine whether a point is inside a closed mesh from the solid angle
+    that the faces of the mesh subtend at the point.
+    """
+    a, b, c = np.moveaxis(mesh.triangles - point, 1, 0)
+    la, lb, lc = norm(a, axis=-1), norm(b, axis=-1), norm(c, axis=-1)
+    angle = 2 * np.arctan2(
+        np.einsum('ij,ij->i', a, np.cross(b, c)),
+        la * lb * lc
+        + np.einsum('ij,ij->i', a, b) * lc
+        + np.einsum('ij,ij->i', b, c) * la
+        + np.einsum('ij,ij->i', c, a) * lb
+    )
+
+    return abs(angle.sum()) > 2 * np.pi
+
+
 def get_ref_sigma(sigma1, sigma2, sigma3, kop_index):
     sigma = np.column_stack([sigma1, sigma2, sigma3])
     sigma_diff = np.diff(sigma, axis=0)
-- 
2.43.0


From 2c22c3bca40b8493500b6cb6da664452e8b00bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 042/107] fix: curve-hold-curve paths reach their target
 without giving up the design dls

---
 welleng/connector.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index ff4bb2c..d2225ec 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1115,7 +1115,10 @@ class Connector:
         """
         _THRESHOLD = 1e-3   # 1 mm
         err0 = self._rendered_endpoint_error()
-        if err0 <= _THRESHOLD:
+        if err0 <= _THRESHOLD and all((
+            self.dist_curve >= self.radius_design * self.dogleg * 0.9999,
+            self.dist_curve2 >= self.radius_design2 * self.dogleg2 * 0.9999
+        )):
             return
 
         _save_keys = (
@@ -1126,6 +1129,23 @@ class Connector:
         best_err   = err0
         best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
 
+        # The iteration may merely have stopped short of its fixed point, so
+        # carry on from there before giving up the design radii.
+        min_error = self.min_error
+        self.min_error = min(min_error, 1e-9)
+        minimize_target_pos_and_vec_defined(
+            [self.radius_design, self.radius_design2],
+            self, deepcopy(self.pos3), None, True
+        )
+        self._happy_finish()
+        self.min_error = min_error
+        err_new = self._rendered_endpoint_error()
+        if err_new < best_err or err_new <= _THRESHOLD:
+            best_err   = err_new
+            best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+        if best_err <= _THRESHOLD:
+            return
+
         r_base = min(self.radius_design, self.radius_design2)
         for shrink in [0.5, 0.25, 0.125]:
             r_try = r_base * shrink
-- 
2.43.0


From a07b9ce1c79bed8faaa68a2c8db75c20697b36b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 043/107] fix: connector arcs of more than half a circle turn
 the way they're meant to

---
 welleng/connector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index d2225ec..bcd5cc7 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2057,7 +2057,8 @@ def interpolate_curve(
 
     end_md = abs(dist_curve)
     if step is None:
-        md = np.array([0])
+        # two stations can't describe an arc of more than half a circle
+        md = np.array([0., end_md / 2] if dogleg > np.pi else [0.])
     else:
         start_md = step - (md1 % step)
         md = np.arange(start_md, end_md, step)
@@ -2083,6 +2084,8 @@ def interpolate_curve(
         vec = np.tile(vec1, (len(md), 1))
     else:
         rot_axis = cross / cross_norm          # unit rotation axis ⊥ arc plane
+        if dogleg > np.pi:                     # turns the long way round
+            rot_axis = -rot_axis
         in_plane = np.cross(rot_axis, vec1)    # unit vector in arc plane, ⊥ vec1
         vec = (
             np.cos(dogleg_interp) * vec1
-- 
2.43.0


From 9238d0ac2853a7bcad6946e5c7681a96edd74807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 044/107] fix: closest_approach turns in the plane of the
 target

---
 welleng/connector.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index bcd5cc7..761ff56 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -571,18 +571,15 @@ class Connector:
         }
 
     def _closest_approach(self):
-        vec_pos1_pos_target = self.pos_target - self.pos1
-        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
-
-        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
-        cross_product /= np.linalg.norm(cross_product)
-
-        factor = cross_product / vec_pos1_pos_target
-        factor /= abs(factor)
-
-        cc = (
-            self.pos1 + cross_product * factor * self.radius_design
+        # direction from pos1 to the center of the design circle, i.e. the
+        # part of the direction to the target that's perpendicular to vec1
+        vec_pos1_cc = self.pos_target - self.pos1
+        vec_pos1_cc = (
+            vec_pos1_cc - np.dot(vec_pos1_cc, self.vec1) * self.vec1
         )
+        vec_pos1_cc /= np.linalg.norm(vec_pos1_cc)
+
+        cc = self.pos1 + vec_pos1_cc * self.radius_design
 
         cc_pos_target = self.pos_target - cc
         cc_pos_target /= np.linalg.norm(cc_pos_target)
-- 
2.43.0


From 0cce08cd288102ccbcebc4a76970ffa4943d4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 045/107] fix: connector nodes and dls are in the connector's
 unit

---
 welleng/connector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 761ff56..970f381 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -418,12 +418,14 @@ class Connector:
         self.node_start = Node(
             pos=self.pos1.reshape(3),
             vec=self.vec1.reshape(3),
-            md=self.md1
+            md=self.md1,
+            unit=self.unit
         )
         self.node_end = Node(
             pos=self.pos_target.reshape(3),
             vec=self.vec_target.reshape(3),
-            md=self.md_target
+            md=self.md_target,
+            unit=self.unit
         )
 
     def _min_dist_to_target(self):
@@ -453,7 +455,7 @@ class Connector:
         self.md2 = self.md1 + abs(self.dist_curve)
         self.md_target = self.md2 + self.tangent_length
         self.vec2 = self.vec_target
-        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * 30
+        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * self.denom
 
     def _min_curve_to_target(self):
         (
@@ -475,7 +477,7 @@ class Connector:
         )
         self._get_angles_target()
         self._get_md_target()
-        self.dls = np.degrees(self.dogleg) / self.dist_curve * 30
+        self.dls = np.degrees(self.dogleg) / self.dist_curve * self.denom
 
     def _use_method(self):
         if self.method == 'hold':
-- 
2.43.0


From 8eed1348cfcca14c89fd7d22bd0d71adebc2cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 046/107] fix: connector doesn't move targets that are straight
 ahead

---
 welleng/connector.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 970f381..99ffb9a 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1292,20 +1292,7 @@ class Connector:
 
         return tangent_temp
 
-    def _mod_pos(self, pos):
-        pos_rand = np.random.random(3)  # * self.delta_radius
-        pos += pos_rand
-
     def _get_distances(self, pos1, vec1, pos_target):
-        # When initializing a `curve_hold_curve` and pos_target is directly
-        # ahead it can cause issues (it's a hold and not a curve). So this code
-        # checks for that condition and if it's the case, will move the
-        # target_pos a sufficient amount to prevent issues.
-        vec_temp = np.array(pos_target - pos1)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            vec_temp = vec_temp / np.linalg.norm(vec_temp)
-        if np.array_equal(vec1, vec_temp):
-            self._mod_pos(pos_target)
         if np.allclose(pos1, pos_target):
             return (0, 0, 0)
 
@@ -1328,6 +1315,13 @@ class Connector:
                     - dist_perp_to_target ** 2
                 ) ** 0.5
             )
+            # When pos_target is directly ahead (or behind) there's no plane
+            # to turn in, which causes issues. So keep the target off the
+            # axis by an amount that doesn't exceed the precision of the
+            # calculation.
+            dist_norm_to_target = max(
+                dist_norm_to_target, 1e-8 * dist_to_target
+            )
 
             return (
                 dist_to_target,
-- 
2.43.0


From 32a609ef62f7c72d9f96a95082dbc66b0b0c5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 047/107] fix: connector handles targets exactly opposite to
 the start direction

---
 welleng/connector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 99ffb9a..247a21a 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -398,7 +398,9 @@ class Connector:
         # it's worth.
         if (
             self.vec_target is not None
-            and np.array_equal(self.vec_target, self.vec1 * -1)
+            and np.allclose(
+                self.vec_target, self.vec1 * -1, rtol=0, atol=1e-8
+            )
         ):
             (
                 self.vec_target,
@@ -1568,7 +1570,7 @@ def mod_vec(vec, error=1e-5):
     vec : ndarray
         Unit direction vector in NEV coordinates.
     error : float
-        Perturbation magnitude applied to the vertical component.
+        Perturbation magnitude, perpendicular to the vector.
 
     Returns
     -------
@@ -1576,9 +1578,10 @@ def mod_vec(vec, error=1e-5):
         A tuple of (perturbed_vec, inclination, azimuth).
     """
     # if it's not working then twat it with a hammer
-    vec_mod = vec * np.array([1, 1, 1 - error])
+    perp = np.cross(vec, np.eye(3)[np.argmin(np.abs(vec))])
+    vec_mod = vec + error * perp / np.linalg.norm(perp)
     vec_mod /= np.linalg.norm(vec_mod)
-    inc_mod, azi_mod = get_angles(vec_mod, nev=True).T
+    inc_mod, azi_mod = get_angles(vec_mod, nev=True).reshape(2)
 
     return vec_mod, inc_mod, azi_mod
 
-- 
2.43.0


From 23545eaa5a412acc549dd464241b4abc2b849d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 048/107] fix: drop_off turns the short way to the target
 inclination, or as far as the section allows

---
 welleng/connector.py | 53 ++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 247a21a..c869de9 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2561,6 +2561,15 @@ def _get_section(
     )
 
 
+def _get_start_node(node):
+    # a copy of the node with a md or, by default, at surface pointing down
+    if node is None:
+        return Node(pos=[0., 0., 0.], vec=[0., 0., 1.], md=0)
+    node = copy(node)
+    node.md = 0 if node.md is None else node.md
+    return node
+
+
 def drop_off(
     target_inc: float, dls: float, delta_md: float | None = None,
     node: Node | None = None, tol: float = 1e-5
@@ -2591,27 +2600,7 @@ def drop_off(
         (the arc endpoint) or two (arc endpoint plus tangent endpoint)
         if the target inclination was achieved within the section.
     """
-    def _drop_off(
-            x: tuple,
-            node,
-            return_data: bool = False
-    ) -> tuple:
-        dogleg, toolface = x
-        pos2, vec2, arc_length = get_arc(
-            dogleg, radius,
-            0 if -np.pi / 2 <= toolface <= np.pi / 2 else np.pi,
-            node.pos_nev, node.vec_nev
-        )
-        if return_data:
-            return (pos2, vec2, arc_length)
-        else:
-            inc, _ = np.degrees(
-                get_angles(vec2, nev=True)[0]
-            )
-            return abs(inc - target_inc)
-
-    node = Node() if node is None else node
-    node.md = 0 if node.md is None else node.md
+    node = _get_start_node(node)
     radius = radius_from_dls(dls)
     if isinstance(delta_md, np.ndarray):
         delta_md = delta_md[0]
@@ -2620,18 +2609,12 @@ def drop_off(
         else delta_md / radius
     )
 
-    args = (node,)
-    bounds = [
-        [0, min(2 * np.pi, max_dogleg)],
-        [-np.pi, np.pi]
-    ]
-    x0 = [bounds[0][1] / 2, np.pi]
-    result = minimize(
-        _drop_off, x0, args=args, bounds=bounds,
-        method="SLSQP"
-    )
-    pos2, vec2, arc_length = _drop_off(
-        result.x, *args, return_data=True
+    # build (toolface 0) or drop (toolface pi) in the vertical plane
+    delta_inc = np.radians(target_inc) - node.inc_rad
+    pos2, vec2, arc_length = get_arc(
+        min(abs(delta_inc), max_dogleg), radius,
+        0 if delta_inc > 0 else np.pi,
+        node.pos_nev, node.vec_nev
     )
     tangent_length = (
         0 if delta_md is None
@@ -2690,9 +2673,7 @@ def extend_to_tvd(
     ...     target_tvd=3200, node=node, target_inc=0, dls=3
     ... )
     """
-    if node is None:
-        node = Node()
-    node.md = 0 if node.md is None else node.md  # default value is None which complicates things
+    node = _get_start_node(node)
     _delta_md = 1e-8 if delta_md is None else delta_md
     connections = []
     if target_inc is None:
-- 
2.43.0


From ef009c3a8105e6b76c142a3ba73655a85162c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 049/107] fix: connect_points takes dls_design as an integer or
 a list and whole number positions

---
 welleng/connector.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index c869de9..17197ae 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2402,18 +2402,17 @@ def connect_points(
         A list of Connector objects linking consecutive points.
     """
     if nev:
-        pos_nev = np.array(cartesians).reshape(-1, 3)
+        pos_nev = np.array(cartesians, dtype=float).reshape(-1, 3)
         vec_nev = np.zeros_like(pos_nev)
         vec_nev[0] = np.array(vec_start).reshape(-1, 3)
     else:
-        pos_nev = get_nev(cartesians)
+        pos_nev = np.array(get_nev(cartesians), dtype=float)
         vec_nev = np.zeros_like(pos_nev)
         vec_nev[0] = get_nev(vec_start)
 
-    if type(dls_design) is float:
-        dls = np.full(len(pos_nev), dls_design)
-    else:
-        dls = np.array(dls_design).reshape(-1, 1)
+    dls = np.array(dls_design, dtype=float).reshape(-1)
+    if len(dls) == 1:
+        dls = np.full(len(pos_nev), dls[0])
 
     connections = []
     for i, (p, v, d) in enumerate(zip(pos_nev, vec_nev, dls)):
-- 
2.43.0


From e771b8a845be3cf06eb9dfa053be03b78674961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 050/107] fix: survey_to_plan works (again)

---
 welleng/connector.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 17197ae..252d1c3 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2499,11 +2499,10 @@ def survey_to_plan(survey, tolerance=0.2, dls_design=1., step=30.):
 def _get_section(
     survey, start, tolerance, dls_design=1., md=0., node=None
 ):
-    idx = start + 2
-    nev = survey.get_nev_arr()
+    from .survey import from_connections  # survey imports this module
 
-    if idx > len(nev):
-        idx = len(nev) - 1
+    nev = survey.get_nev_arr()
+    idx = min(start + 2, len(nev) - 1)
 
     if node is None:
         node_1 = Node(
@@ -2526,9 +2525,10 @@ def _get_section(
         c = Connector(
             node1=node_1,
             node2=node_2,
-            dls_design=dls_design
+            dls_design=dls_design,
+            unit=survey.unit
         )
-        s = c.survey(step=1.)
+        s = from_connections(c, step=1., depth_unit=survey.unit)
         if c_old is None:
             c_old = deepcopy(c)
         nev_new = s.get_nev_arr()
-- 
2.43.0


From f9d57387ca7dc6d96a75dbe36330c4405bede817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 051/107] fix: from_connections checks for duplicates with the
 decimals it's given

---
 welleng/survey.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index fe96c2a..3d0b2b9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2646,7 +2646,7 @@ def from_connections(
         and represents the radius of the wellbore. It is also used
         when visualizing the results, so can be used to make the
         wellbore *thicker* in the plot.
-    decimals: int (default=6)
+    decimals: int (default=4)
         Round the md decimal when checking for duplicate surveys.
 
     Returns
@@ -2654,7 +2654,7 @@ def from_connections(
     survey : Survey
         A Survey object constructed from the connections.
     """
-    decimals = 6 if decimals is None else decimals
+    decimals = 4 if decimals is None else decimals
     assert isinstance(decimals, int), "decimals must be an int"
 
     if type(section_data) is not list:
@@ -2676,7 +2676,7 @@ def from_connections(
     ]).T
 
     # remove duplicates
-    md, inc, azi = _remove_duplicates(md, inc, azi)
+    md, inc, azi = _remove_duplicates(md, inc, azi, decimals)
 
     if survey_header is None:
         survey_header = SurveyHeader(
-- 
2.43.0


From 3795ebb7eca78baff6ded409438256010369c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 052/107] fix: connector to the direction it already has

---
 welleng/connector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index 252d1c3..8e87368 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -672,6 +672,9 @@ class Connector:
                 ).reshape(3)
 
     def _hold(self):
+        if self.pos_target is None and self.md_target is None:
+            # already pointing in the direction of the target
+            self.md_target = self.md1
         if self.pos_target is None:
             self.pos_target = (
                 self.pos1 + self.vec1 * (self.md_target - self.md1)
-- 
2.43.0


From a67049041a7522c034a1534dec246950d27f8318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 053/107] fix: connector to a depth with no measurable change
 in direction

---
 welleng/connector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 8e87368..6e44d2e 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -625,10 +625,10 @@ class Connector:
                     self.func_dogleg
                 ).reshape(3)
         else:
-            with np.errstate(divide='ignore'):
+            with np.errstate(divide='ignore', invalid='ignore'):
                 self.radius_critical = np.nan_to_num(abs(
-                    (self.md_target - self.md1) / self.dogleg
-                ), nan=np.inf)
+                    np.divide(self.md_target - self.md1, self.dogleg)
+                ), nan=np.inf, posinf=np.inf)
             if (
                 self.radius_critical > self.radius_design
                 or (
-- 
2.43.0


From 0decb51d36b9d8fead837727b76d85994fb0bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 054/107] fix: from_connections recognises the ends of the
 sections despite the rounding

---
 welleng/survey.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 3d0b2b9..8319436 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2685,7 +2685,13 @@ def from_connections(
             azi_reference="grid"  # since connections are typcially derived from pos
         )
 
-    interpolated = np.array([False if m in mds_ref else True for m in md])
+    # the stations at the ends of the sections are the ones that were asked
+    # for, give or take the rounding
+    mds_ref = np.unique(mds_ref)
+    i = np.clip(np.searchsorted(mds_ref, md), 1, len(mds_ref) - 1)
+    interpolated = np.minimum(
+        np.abs(md - mds_ref[i - 1]), np.abs(md - mds_ref[i])
+    ) > 10 ** -decimals / 2
 
     survey = Survey(
         md=md,
-- 
2.43.0


From 54d40c8c86e815cfeb8c316422ea2545b2713dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 055/107] fix: curve and hold to a target two radii to the side
 of the start

---
 welleng/connector.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 6e44d2e..18cc260 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1847,10 +1847,8 @@ def min_dist_to_target(radius, distances):
 
     # determine the dogleg angle of the curve section
     dogleg = 2 * np.arctan2(
-        (dist_perp_to_target - tangent_length),
-        (
-            2 * radius - dist_norm_to_target
-        )
+        dist_norm_to_target,
+        dist_perp_to_target + tangent_length
     )
 
     return tangent_length, dogleg
-- 
2.43.0


From 51528cd28623fc8cb820bf9f87cad3e71611030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 056/107] fix: connector arcs of half a circle turn towards
 their target

---
 welleng/connector.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 18cc260..5121113 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2004,7 +2004,8 @@ def interpolate_curve(
     dogleg,
     func_dogleg,
     step,
-    endpoint=False
+    endpoint=False,
+    pos2=None
 ):
     """Interpolates survey points along a curve section at regular MD intervals.
 
@@ -2031,6 +2032,9 @@ def interpolate_curve(
         Desired delta measured depth between interpolated points.
     endpoint : bool
         If True, includes the curve endpoint in the output.
+    pos2 : ndarray or None
+        End position in NEV coordinates, which tells the plane of an arc
+        of half a circle.
 
     Returns
     -------
@@ -2055,7 +2059,7 @@ def interpolate_curve(
     end_md = abs(dist_curve)
     if step is None:
         # two stations can't describe an arc of more than half a circle
-        md = np.array([0., end_md / 2] if dogleg > np.pi else [0.])
+        md = np.array([0., end_md / 2] if dogleg > np.pi - 1e-6 else [0.])
     else:
         start_md = step - (md1 % step)
         md = np.arange(start_md, end_md, step)
@@ -2074,6 +2078,11 @@ def interpolate_curve(
     # The formula never divides by sin(dogleg) during evaluation — only during
     # the one-time setup of in_plane — so numerical errors do not accumulate.
     cross = np.cross(vec1, vec2)
+    if abs(dogleg - np.pi) < 1e-6 and pos2 is not None:
+        # vec1 and vec2 are antiparallel, but the chord is in the plane
+        cross = np.cross(vec1, np.array(pos2) - np.array(pos1))
+        if dogleg > np.pi:
+            cross = -cross
     cross_norm = float(np.linalg.norm(cross))
     if cross_norm < 1e-10:
         # vec1 ≈ vec2 (zero dogleg) or exactly antiparallel (degenerate arc):
@@ -2245,7 +2254,8 @@ def get_interpolate_min_curve_to_target(section, step=30, data=None):
         dogleg=section.dogleg,
         func_dogleg=section.func_dogleg,
         step=step,
-        endpoint=True
+        endpoint=True,
+        pos2=section.pos_target
     ))
 
     return data
@@ -2280,7 +2290,8 @@ def get_interpolate_min_dist_to_target(section, step=30, data=None):
         dist_curve=section.dist_curve,
         dogleg=section.dogleg,
         func_dogleg=section.func_dogleg,
-        step=step
+        step=step,
+        pos2=section.pos2
     ))
 
     # the hold section
@@ -2325,7 +2336,8 @@ def get_interpololate_curve_hold_curve(section, step=30, data=None):
         dist_curve=section.dist_curve,
         dogleg=section.dogleg,
         func_dogleg=section.func_dogleg,
-        step=step
+        step=step,
+        pos2=section.pos2
     ))
 
     # the hold section
@@ -2347,7 +2359,8 @@ def get_interpololate_curve_hold_curve(section, step=30, data=None):
         dogleg=section.dogleg2,
         func_dogleg=section.func_dogleg2,
         step=step,
-        endpoint=True
+        endpoint=True,
+        pos2=section.pos_target
     ))
 
     return data
-- 
2.43.0


From 8e8591abf1f0952cdb0f7cae3eebb92dc720425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 057/107] fix: connector reaches targets that are too near for
 the design dls

---
 welleng/connector.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 5121113..995d873 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -846,6 +846,8 @@ class Connector:
                 )
 
                 if any((
+                    # going round in circles
+                    self.iterations > 10 * self.max_iterations,
                     abs(self.dls - self.dls2) < self.delta_dls,
                     np.allclose(self.pos1, self.pos2),
                     np.allclose(self.pos3, self.pos_target),
@@ -1135,26 +1137,33 @@ class Connector:
 
         # The iteration may merely have stopped short of its fixed point, so
         # carry on from there before giving up the design radii.
-        min_error = self.min_error
-        self.min_error = min(min_error, 1e-9)
+        settings = {k: getattr(self, k) for k in (
+            'radius_design', 'radius_design2', 'min_error', 'max_iterations',
+            'iterations', 'error'
+        )}
+        self.min_error = min(self.min_error, 1e-10)
+        self.max_iterations = min(self.max_iterations, 300)
         minimize_target_pos_and_vec_defined(
             [self.radius_design, self.radius_design2],
             self, deepcopy(self.pos3), None, True
         )
         self._happy_finish()
-        self.min_error = min_error
         err_new = self._rendered_endpoint_error()
         if err_new < best_err or err_new <= _THRESHOLD:
             best_err   = err_new
             best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-        if best_err <= _THRESHOLD:
-            return
 
+        # at a fifth of the distance or less there's room to turn at both ends
         r_base = min(self.radius_design, self.radius_design2)
-        for shrink in [0.5, 0.25, 0.125]:
-            r_try = r_base * shrink
+        dist = np.linalg.norm(self.pos_target - self.pos1)
+        for r_try in [r_base * shrink for shrink in (0.5, 0.25, 0.125)] + [
+            dist / s for s in (5, 7, 10, 20) if dist / s < 0.125 * r_base
+        ]:
+            if best_err <= _THRESHOLD:
+                break
             self.radius_critical  = np.inf
             self.radius_critical2 = np.inf
+            self.radius_design = self.radius_design2 = r_try
             minimize_target_pos_and_vec_defined(
                 [r_try, r_try], self, None, None, True
             )
@@ -1163,8 +1172,7 @@ class Connector:
             if err_new < best_err:
                 best_err   = err_new
                 best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-            if best_err <= _THRESHOLD:
-                break
+        best_state.update(settings)
 
         # Restore the geometry that achieved the smallest endpoint error
         for k, v in best_state.items():
@@ -1436,7 +1444,7 @@ def minimize_target_pos_and_vec_defined(
 
     radius_temp1, radius_temp2 = radius1, radius2
 
-    for _ in range(c.max_iterations):
+    for k in range(c.max_iterations):
         prev_pos3 = c.pos3.copy()
 
         # ── Curve 1: pos1 → pos2 ────────────────────────────────────────────
@@ -1497,7 +1505,9 @@ def minimize_target_pos_and_vec_defined(
 
         # Damped update: averaging old and new prevents oscillation when the
         # target is close relative to the radius of curvature.
-        c.pos3 = 0.5 * pos3_new + 0.5 * prev_pos3
+        # The damping increases if that doesn't settle it.
+        weight = 0.5 * 0.95 ** max(0, k - 500)
+        c.pos3 = weight * pos3_new + (1 - weight) * prev_pos3
 
         vec23_denom = np.linalg.norm(c.pos3 - c.pos2)
         if vec23_denom == 0:
-- 
2.43.0


From c6d432fcb392e8c9e561f75ad52e1a239b706ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 058/107] fix: extend_to_tvd straight ahead doesn't need a
 search

---
 welleng/connector.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 995d873..49fba97 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2700,25 +2700,12 @@ def extend_to_tvd(
     _delta_md = 1e-8 if delta_md is None else delta_md
     connections = []
     if target_inc is None:
-        def _extend_tvd(
-            delta_md, pos, vec, target_tvd, return_data=False
-        ):
-            pos2 = np.array(pos) + delta_md * np.array(vec)
-            if return_data:
-                return pos2
-            else:
-                return abs(pos2[2] - target_tvd)
-
-        args = (node.pos_nev, node.vec_nev, target_tvd)
-        bounds = [[0, None]]
-        result = minimize(
-            _extend_tvd,
-            _delta_md,
-            args=args,
-            bounds=bounds,
-            method="Powell"
-        )
-        pos2 = _extend_tvd(result.x, *args, return_data=True)
+        # straight ahead until the target depth
+        length = np.divide(
+            target_tvd - node.pos_nev[2], node.vec_nev[2],
+            out=np.zeros(1), where=node.vec_nev[2] != 0
+        ).clip(0)
+        pos2 = node.pos_nev + length * node.vec_nev
         connections.append(Connector(
             pos1=node.pos_nev, vec1=node.vec_nev,
             md1=0 if node.md is None else node.md,
-- 
2.43.0


From 536e8a9042c66b6e6c924675a5fffd32fe462316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 059/107] fix: project ahead, to the bit and to a target for
 surveys in feet

---
 welleng/survey.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 8319436..3d2cf0c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1233,7 +1233,8 @@ class Survey:
             delta_md=delta_md,
             dls=dls,
             toolface=toolface,
-            md=self.md[-1]
+            md=self.md[-1],
+            unit=self.unit
         )
 
         return node
@@ -2945,7 +2946,9 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
     return s_interp
 
 
-def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
+def project_ahead(
+    pos, vec, delta_md, dls, toolface, md=0.0, unit='meters'
+):
     """
     Apply a simple arc or hold from a current position and vector.
 
@@ -2964,14 +2967,17 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         The desired toolface for the projection.
     md: float (optional)
         The current md if applicable.
+    unit: str (default: 'meters')
+        Either 'meters', with the dls in deg/30m, or 'feet', with the dls in
+        deg/100ft.
 
     Returns
     -------
     node: welleng.node.Node object
     """
     if dls > 0:
-        radius = radius_from_dls(dls)
-        dogleg = np.radians(delta_md / 30 * dls)
+        dogleg = np.radians(delta_md / (30 if unit == 'meters' else 100) * dls)
+        radius = delta_md / dogleg if dogleg else 0.
 
         pos_temp = np.array([
             np.cos(dogleg),
@@ -3008,6 +3014,7 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         pos=pos_new,
         vec=vec_new,
         md=md + delta_md,
+        unit=unit,
     )
 
     return node
@@ -3049,7 +3056,8 @@ def project_to_target(
     """
     connectors = []
     node_start = Node(
-            pos=survey.pos_nev[-1], vec=survey.vec_nev[-1], md=survey.md[-1]
+            pos=survey.pos_nev[-1], vec=survey.vec_nev[-1], md=survey.md[-1],
+            unit=survey.unit
         )
     if dls is None:
         dls = survey.dls[-1]
@@ -3068,11 +3076,14 @@ def project_to_target(
             delta_md,
             dls,
             toolface,
-            survey.md[-1]
+            survey.md[-1],
+            survey.unit
         )
         node_bit.pos_nev, node_bit.pos_xyz = None, None
         connectors.append(
-            Connector(node_start, node_bit, dls_design=dls_design)
+            Connector(
+                node_start, node_bit, dls_design=dls_design, unit=survey.unit
+            )
         )
         node_bit = connectors[-1].node_end
     else:
@@ -3080,7 +3091,7 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design
+            node_bit, node_target, dls_design, unit=survey.unit
         )
     )
     # the connectors' azimuths are relative to grid
@@ -3093,7 +3104,7 @@ def project_to_target(
         survey_header=header,
         start_cov_nev=cov_nev,
         radius=survey.radius[-1], deg=False, error_model=survey.error_model,
-        depth_unit=survey.header.depth_unit,
+        depth_unit=survey.unit,
         surface_unit=survey.header.surface_unit
     )
     return survey_to_target
-- 
2.43.0


From 962d4435c77803666271e17425db106e80731872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 060/107] fix: project_to_target reaches the bit by the
 projected arc

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 3d2cf0c..d44ebe9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3082,7 +3082,8 @@ def project_to_target(
         node_bit.pos_nev, node_bit.pos_xyz = None, None
         connectors.append(
             Connector(
-                node_start, node_bit, dls_design=dls_design, unit=survey.unit
+                node_start, node_bit, dls_design=1e-8, unit=survey.unit,
+                force_min_curve=True
             )
         )
         node_bit = connectors[-1].node_end
-- 
2.43.0


From b6dac66d47d233b11ba4a00b0cb57777c44db3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 061/107] fix: project_to_target uses the design dls it's given

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index d44ebe9..36f54a1 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3092,7 +3092,7 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design, unit=survey.unit
+            node_bit, node_target, dls_design=dls_design, unit=survey.unit
         )
     )
     # the connectors' azimuths are relative to grid
-- 
2.43.0


From 1189a3f380bc3fc8376f07bdb0c7f6c43831f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 062/107] fix: string sections can be given by their top or
 reach the top of the string

---
 welleng/architecture.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index f626079..626ae5d 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -138,15 +138,11 @@ class String:
             bottom = self.sections[0]['top']
 
         if bool(kwargs.get('length')):
-            top = bottom - kwargs.get('length')
-            if top < self.top:
-                top = self.top
-                length = bottom - top
+            top = max(bottom - kwargs.get('length'), self.top)
         elif bool(kwargs.get('top')):
-            length = bottom - kwargs.get('top')
+            top = kwargs.get('top')
         else:
             top = self.top
-            length = self.sections[0]['top']
 
         self.sections[temp] = {}
         self.sections[temp]['top'] = top
@@ -155,6 +151,8 @@ class String:
         # add the section to the sections dict
         for k, v in kwargs.items():
             self.sections[temp][k] = v
+        self.sections[temp]['top'] = top
+        self.sections[temp]['length'] = bottom - top
 
         # sort the dict on depth of tops
         self.sections = {
-- 
2.43.0


From 214ea55d5e79dca60b9b48754940716060368f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 063/107] fix: strings can be run to a depth whichever way
 their sections were given

---
 welleng/architecture.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 626ae5d..9f20c7a 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -48,9 +48,13 @@ class String:
                     k: v for k, v in self.sections[section].items()
                     if k not in ['top', 'bottom', 'length', 'buoyancy_factor']
             }
-            string_new.add_section(
-                length=self.sections[section]['length'], **params
+            section_top = self.sections[section]['top']
+            # the section at the top always extends to the top of the string
+            length = (
+                None if section_top == self.top
+                else self.sections[section]['bottom'] - section_top
             )
+            string_new.add_section(length=length, **params)
             if string_new.sections[0]['top'] == self.top:
                 reached_top = True
 
-- 
2.43.0


From 39fdf2b02db1bad57faa890ae2f0dc18c618b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 064/107] fix: torque and drag looks up the bottoms of its
 sections

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6524a19..305e33b 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -196,7 +196,7 @@ class TorqueDrag:
     def get_weight_buoyed_and_radius(self):
         """Calculate buoyed weight and contact radius for each survey interval."""
         sections = self.string.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         delta_mds = self.survey.delta_md[1:]
         mask = mds <= self.string.bottom
@@ -212,7 +212,7 @@ class TorqueDrag:
     def get_coeff_friction_sliding(self):
         """Build an array of sliding friction coefficients mapped to survey stations."""
         sections = self.wellbore.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         mask = mds <= self.wellbore.bottom
         mds = mds[mask]
-- 
2.43.0


From da9f0360f55127d3e9d3ac3c249e87d6ccb91d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 065/107] fix: torque uses the radius of the section in contact

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 305e33b..3b8a018 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -255,7 +255,7 @@ class TorqueDrag:
             self.azi_delta[:self.index][::-1],
             self.weight_buoyed[::-1],
             self.coeff_friction_sliding[:self.index][::-1],
-            self.radius
+            self.radius[::-1]
         ):
             (
                 inc_average, inc_delta, azi_delta, weight_buoyed,
-- 
2.43.0


From 883b94e081b57fed9d4ec0dd706536ecdb97d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 066/107] fix: torque and drag turns the short way across north

---
 welleng/torque_drag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 3b8a018..5e896d1 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -169,9 +169,9 @@ class TorqueDrag:
     def get_azi_delta(self):
         """Calculate the azimuth change between consecutive survey stations."""
         self.azi_delta = np.zeros_like(self.survey.azi_grid_rad)
-        self.azi_delta[1:] = (
-            self.survey.azi_grid_rad[1:] - self.survey.azi_grid_rad[:-1]
-        )
+        azi_delta = self.survey.azi_grid_rad[1:] - self.survey.azi_grid_rad[:-1]
+        # the short way round
+        self.azi_delta[1:] = (azi_delta + np.pi) % (2 * np.pi) - np.pi
 
     def get_characteristic_od(self, section):
         """Return the effective outer diameter for a string section.
-- 
2.43.0


From e00fdac15753d95d852f9920180b7dcf452fc6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 067/107] fix: torque and drag adds each section bottom once,
 at its own depth

---
 welleng/torque_drag.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 5e896d1..b77e8cb 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -106,23 +106,16 @@ class TorqueDrag:
         the string sections to ensure that the torque and drag is
         calculated for these key locations.
         """
-        q = []
-
-        for k, v in self.wellbore.sections.items():
-            if v['bottom'] in self.survey_original.md:
-                continue
-            else:
-                q.append(interpolate_md(
-                    self.survey_original, v['bottom']
-                ))
-
-        for k, v in self.string.sections.items():
-            if v['bottom'] in self.survey_original.md:
-                continue
-            else:
-                q.append(interpolate_md(
-                    self.survey_original, v['bottom']
-                ))
+        bottoms = {
+            v['bottom']
+            for s in (self.wellbore, self.string)
+            for v in s.sections.values()
+            if v['bottom'] not in self.survey_original.md
+        }
+        q = [
+            (bottom, interpolate_md(self.survey_original, bottom))
+            for bottom in bottoms
+        ]
 
         md, inc, azi = (
             self.survey_original.md.tolist(),
@@ -130,9 +123,9 @@ class TorqueDrag:
             self.survey_original.azi_grid_rad.tolist()
         )
 
-        md.extend([station.md[-1] for station in q])
-        inc.extend([station.inc_rad[-1] for station in q])
-        azi.extend([station.azi_grid_rad[-1] for station in q])
+        md.extend([bottom for bottom, _ in q])
+        inc.extend([station.inc_rad[-1] for _, station in q])
+        azi.extend([station.azi_grid_rad[-1] for _, station in q])
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-- 
2.43.0


From 315314de29e6d3ae4c9d4e8ed9ca09880ffa4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 068/107] fix: torque and drag doesn't change the azimuth
 reference of the survey

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index b77e8cb..c9928a4 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -1,6 +1,6 @@
 """Wellbore torque and drag calculations based on Johancsik et al. (SPE 11380-PA)."""
 
-from copy import deepcopy
+from copy import copy, deepcopy
 import numpy as np
 
 try:
@@ -129,7 +129,7 @@ class TorqueDrag:
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-        sh = self.survey_original.header
+        sh = copy(self.survey_original.header)
         sh.azi_reference = 'grid'
 
         self.survey = Survey(
-- 
2.43.0


From 7b5da7ab899822f5a51a2786d2ef4efce2382d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 069/107] fix: diesel density interpolates with a scipy that
 has no interp2d

---
 welleng/fluid.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index b33ae53..e70f5a6 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -31,8 +31,6 @@ class DensityDiesel:
         psia = np.array([15., 3_000., 7_000., 10_000., 12_500.])
         temp = np.array([100., 200., 300., 350.])
 
-        psia_psia, temp_temp = np.meshgrid(psia, temp)
-
         rho = np.array([
             [6.9597, 7.0597, 7.1621, 7.2254, 7.2721],
             [6.6598, 6.7690, 6.8789, 6.9464, 6.9930],
@@ -40,8 +38,8 @@ class DensityDiesel:
             [6.2083, 6.3350, 6.4624, 6.5366, 6.5874]
         ])
 
-        self.density_diesel = interpolate.interp2d(
-            psia_psia, temp_temp, rho, kind='cubic'
+        self.density_diesel = interpolate.RectBivariateSpline(
+            temp, psia, rho
         )
 
     def get_density(self, pressure, temperature):
@@ -50,10 +48,10 @@ class DensityDiesel:
         the lookup data provided in SPE 11118 paper.
         """
         density = self.density_diesel(
-            pressure, temperature
+            temperature, pressure
         )
 
-        return density
+        return density[0] if len(density) == 1 else density
 
 class Fluid:
     def __init__(
-- 
2.43.0


From efbb69a48dcbf13d45fe2566a9b6da9ea129c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 070/107] fix: fluid density profiles accept lists of
 temperatures

---
 welleng/fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index e70f5a6..46ae620 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -238,7 +238,7 @@ class Fluid:
         depth = np.array([depth]).reshape(-1)
         with np.errstate(invalid='ignore'):
             temperature_thermal_gradient = np.nan_to_num((
-                temperature - self.temp_reference
+                np.asarray(temperature) - self.temp_reference
             ) / depth
             )
 
-- 
2.43.0


From d338aa239f968410df9efcf5d36c9b4440c3261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 071/107] fix: volume fractions of a fluid make up its density

---
 welleng/fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index 46ae620..e375e11 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -128,7 +128,7 @@ class Fluid:
         volume_weighting_material = (
             self.density_fluid_reference
             - self.base_fluid_density_reference
-        ) / self.density_weighting_material
+        ) / (self.density_weighting_material - self.density_fluid_reference)
 
         volume_total = 1 + volume_weighting_material
 
-- 
2.43.0


From c4e9190518082fd2f32a97b4317d7b7d7d0e2e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 072/107] fix: well plans with a parent well plan file

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 0a781e4..e95d3b5 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -223,7 +223,7 @@ class WellPlan:
             for line in self.parent_data:
                 if "L:" in line:
                     code, e, n, v = line.split()
-                    self.surface_datum = np.array([e, n, v]).astype(np.float)
+                    self.surface_datum = np.array([e, n, v]).astype(float)
                     break
         else:
             self.surface_datum = np.array([
-- 
2.43.0


From 14484862c1970c79ba9bca44cde4b0db7ae18730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 073/107] fix: targets and well plans don't share their
 defaults

---
 welleng/exchange/wbp.py | 52 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index e95d3b5..de1e6f8 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -1,4 +1,5 @@
 import os
+from copy import copy, deepcopy
 import yaml
 from ..survey import (
     TurnPoint,
@@ -27,35 +28,40 @@ from ..version import __version__ as VERSION
 # TODO: need to relocate the class Target to target.py
 
 
+TARGET_GEOMETRY = {
+    'type': None,
+    'locked': None,
+    'offset': None,
+    'orientation': None,
+    'radius_1': None,
+    'radius_2': None,
+    'dip': None,
+    'azimuth': None,
+    'vertices': [],
+    'thickness_up': None,
+    'thickness_down': None,
+    'color': {
+        'color': None,
+        'interpreter': None,
+        'application': None,
+        'feature': None
+    },
+    'category': None,
+}
+
+
 class Target:
     def __init__(
         self,
         name,
         location=None,
-        geometry={
-            'type': None,
-            'locked': None,
-            'offset': None,
-            'orientation': None,
-            'radius_1': None,
-            'radius_2': None,
-            'dip': None,
-            'azimuth': None,
-            'vertices': [],
-            'thickness_up': None,
-            'thickness_down': None,
-            'color': {
-                'color': None,
-                'interpreter': None,
-                'application': None,
-                'feature': None
-            },
-            'category': None,
-        },
+        geometry=None,
     ):
         self.name = name
         self.location = location
-        self.geometry = geometry
+        self.geometry = (
+            deepcopy(TARGET_GEOMETRY) if geometry is None else geometry
+        )
 
 
 class SurveyPoint:
@@ -107,7 +113,7 @@ class WellPlan:
         dls=3.0,
         extension=0,
         wbp_data=None,
-        targets=[],
+        targets=None,
         line=None,
         parent_wbp_file=None,
     ):
@@ -176,7 +182,7 @@ class WellPlan:
 
         self.depth_unit = depth_unit
         self.surface_unit = surface_unit
-        self.targets = targets
+        self.targets = [] if targets is None else targets
         if line is None:
             self.lines = 0
         else:
-- 
2.43.0


From e46ef99c7d6794ab29e9859e30e2637ac46cb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 074/107] fix: load the target geometry of a well plan file

---
 welleng/exchange/wbp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index de1e6f8..d21d7bf 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -302,9 +302,9 @@ class WellPlan:
 
     def _add_target_geometry(self, data):
         tg = self.targets[-1].geometry
-        tg.type = self.wbp_dict['TARGETS']['type'][data[2]]
-        tg.locked = data[3]
-        tg.offset = [float(data[4:13], float(data[13:23]))]
+        tg['type'] = self.wbp_dict['TARGETS']['type'][data[2]]
+        tg['locked'] = data[3]
+        tg['offset'] = [float(data[4:13]), float(data[13:23])]
 
     def _add_target_color(self, data):
         tgc = self.targets[-1].geometry['color']
-- 
2.43.0


From b4616d44e16f7a9b5a0472736693d2973b18a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 075/107] fix: well plan local coordinates are relative to the
 surface location

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index d21d7bf..98e7674 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -233,8 +233,8 @@ class WellPlan:
                     break
         else:
             self.surface_datum = np.array([
-                self.survey.n,
                 self.survey.e,
+                self.survey.n,
                 self.survey.tvd
             ]).T[0]
 
-- 
2.43.0


From b6920a0f8e2d216fa24afdc889d9ecc1b7019afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 076/107] fix: well plan files can have blank lines

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 98e7674..b7151f3 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -251,7 +251,7 @@ class WellPlan:
             # first split the line and look for section headers
             l = line.split()
             m = line.split(':')
-            if l[0] == '!':
+            if not l or l[0] == '!':
                 pass
             elif l[0] == "DEPTH":
                 self._get_units(l[1])
-- 
2.43.0


From 3bc2430993f9f502cd0436e31cf5c5b8585935f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 077/107] fix: well plans loaded from a file can be exported
 again

---
 welleng/exchange/wbp.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index b7151f3..1c5bfdc 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -462,10 +462,11 @@ def add_targets(doc, targets):
     for t in targets:
         doc.append(f"T:{t.name}")
         doc = add_location(doc, t.location)
-        doc.append((
-            f"C:"
-            f"{str(t.geometry['color']['color']).rjust(3)}"
-        ))
+        if t.geometry['color']['color'] is not None:
+            doc.append((
+                f"C:"
+                f"{str(t.geometry['color']['color']).rjust(3)}"
+            ))
     return doc
 
 
@@ -486,19 +487,22 @@ def add_header(doc, data):
     ignored_integer_2 = " 123"
     plan_name = "" if data.plan_name is None else data.plan_name
     parent_name = "" if data.parent_name is None else data.parent_name
+    sidetrack_id = "" if data.sidetrack_id is None else data.sidetrack_id
+    dls = "" if data.dls is None else f"{data.dls:.2f}"
+    extension = "" if data.extension is None else f"{data.extension:.5f}"
     doc.append((
         f"W:"
         f"{get_key(d['type'], data.location_type)}"
         f"{get_unit_key(data)}"
         f"{get_key(d['plan_method'], data.plan_method)}"
-        f"{get_key(d['dirty_flag'], data.dirty_flag)}"
+        f"{get_key(d['dirty_flag'], str(data.dirty_flag))}"
         f"{ignored_integer_1}"
         f"{ignored_integer_2}"
-        f" {data.sidetrack_id:>7}"
+        f" {sidetrack_id:>7}"
         f" {plan_name:<60}"
         f" {parent_name:<60}"
-        f" {data.dls:>6.2f}"
-        f" {data.extension:>7.5f}"
+        f" {dls:>6}"
+        f" {extension:>7}"
     ))
     # the documentation says there should be a kickoff dls at the end,
     # but I've never seen it and what does the other dls refer to?
-- 
2.43.0


From a2be9360f950f8f6e62d3f80529b56ac4bbb4f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 078/107] fix: the tie-on point of the sections of a survey is
 marked as such

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 36f54a1..74cfea1 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2364,7 +2364,7 @@ def get_sections(survey, rtol=1e-1, atol=1e-1, dls_cont=False, **targets):
         # Repeat the first section so that creating .wbp works
         if tie_on:
             section.method = '2'
-            sections.append(section)
+            sections.append(copy(section))
             sections[-1].tie_on = False
 
         tie_on = False
-- 
2.43.0


From 002b28aee1daa7a1f4977c2b540a341f15094990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 079/107] fix: strip_duplicates only strips duplicate survey
 stations

---
 welleng/exchange/wbp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 1c5bfdc..1ef24a6 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -783,13 +783,12 @@ def strip_duplicates(survey):
         if i == 0:
             temp.append(s)
             continue
-        # if s == temp[-1]:
-        if s[1] == temp[-1][1]:
+        if s == temp[-1]:
             continue
         else:
             temp.append(s)
 
-    sh = survey.header
+    sh = copy(survey.header)
     sh.azi_reference = 'grid'
 
     md, inc, azi, radius = np.array(temp).reshape(-1, 4).T
@@ -800,8 +799,10 @@ def strip_duplicates(survey):
         azi=azi,
         deg=False,
         start_nev=survey.start_nev,
+        start_xyz=survey.start_xyz,
         radius=radius,
         header=sh,
+        unit=survey.unit,
     )
 
     return survey_stripped
-- 
2.43.0


From 19342712171742c544bf324f1d9957e25907cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 080/107] fix: wbp_to_survey builds the survey of a well plan

---
 welleng/exchange/wbp.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 1ef24a6..9213147 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -712,6 +712,7 @@ def wbp_to_survey(
             inc2=s.inc,
             azi2=s.azi,
             dls_design=dls_design,
+            unit=data.depth_unit,
         )
         if isinstance(s, TurnPoint):
             dls.append(s.dls)
@@ -726,14 +727,12 @@ def wbp_to_survey(
 
     start_nev = np.array(pos[0])
 
-    survey_data = from_connections(
-        connections,
-        step=step
-    )
+    # the utm coordinates are in meters
+    scale = 0.3048 if data.surface_unit == 'feet' else 1.0
 
     lat, lon = utm.to_latlon(
-        start_nev[1],
-        start_nev[0],
+        start_nev[1] * scale,
+        start_nev[0] * scale,
         utm_zone,
         northern=utm_north,
     )
@@ -744,14 +743,19 @@ def wbp_to_survey(
         altitude=start_nev[-1] * -1,
         azi_reference=azi_reference,
         convergence=convergence,
+        depth_unit=data.depth_unit,
+        surface_unit=data.surface_unit,
     )
 
+    # the connections start at the location of the first point
     survey = from_connections(
-        survey_data,
+        connections,
+        step=step,
         survey_header=sh,
-        start_nev=start_nev,
         radius=radius,
-        deg=False
+        deg=False,
+        depth_unit=data.depth_unit,
+        surface_unit=data.surface_unit,
     )
 
     # Because of the way the imported file is processed, there will likely
-- 
2.43.0


From d73a417538128672dc3abf3e98c2fa5be6dc5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:01 +0000
Subject: [PATCH 081/107] fix: edm attributes are matched once all of them have
 been looked at

---
 welleng/exchange/edm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index fe17ccf..af1dadc 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -63,15 +63,14 @@ class EDM:
                             booleans.append(True)
                         else:
                             booleans.append(False)
-                        if bool(booleans):
-                            if (
-                                logic == 'AND' and all(booleans)
-                                or logic == 'OR' and any(booleans)
-                            ):
-                                try:
-                                    data[child.tag].append(child.attrib)
-                                except KeyError:
-                                    data[child.tag] = [child.attrib]
+                    if (
+                        logic == 'AND' and all(booleans)
+                        or logic == 'OR' and any(booleans)
+                    ):
+                        try:
+                            data[child.tag].append(child.attrib)
+                        except KeyError:
+                            data[child.tag] = [child.attrib]
                 else:
                     try:
                         data[child.tag].append(child.attrib)
-- 
2.43.0


From e0d569cf30263dc7424fbb95d1754921b987f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:01 +0000
Subject: [PATCH 082/107] fix: edm parents don't accumulate from one query to
 the next

---
 welleng/exchange/edm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index af1dadc..d9bc95d 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -173,7 +173,8 @@ class EDM:
 
         return attributes
 
-    def get_parents(self, wellbore_id, predecessors=[]):
+    def get_parents(self, wellbore_id, predecessors=None):
+        predecessors = [] if predecessors is None else predecessors
         for child in self.root:
             if (
                 child.tag == "CD_WELLBORE"
@@ -398,7 +399,8 @@ class Well:
                 survey[item[0]] = sorted(survey[item[0]], key=lambda k: float(k['md']))
         case.survey = survey
 
-    def get_parent_surveys(self, survey_header_id, data=OrderedDict()):
+    def get_parent_surveys(self, survey_header_id, data=None):
+        data = OrderedDict() if data is None else data
         for sh in self.well_data['CD_SURVEY_HEADER']:
             if (
                 sh['survey_header_id'] == survey_header_id
-- 
2.43.0


From b0bf844e0b14fda9708c8ed55d6097fcde8532f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:01 +0000
Subject: [PATCH 083/107] fix: edm data of wellbores without a parent isn't
 duplicated

---
 welleng/exchange/edm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index d9bc95d..027e34e 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -169,7 +169,7 @@ class EDM:
             additional = self.get_attributes(
                 tags=tags, attributes={'wellbore_id': predecessors}
             )
-        attributes = self.add_attributes(attributes, additional)
+            attributes = self.add_attributes(attributes, additional)
 
         return attributes
 
-- 
2.43.0


From 4da318a9b402f3b2cb82b54f2713e66692d09d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 084/107] fix: slices of a survey keep its local coordinates

---
 welleng/survey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 74cfea1..08f34ec 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2114,6 +2114,9 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
         cov_hla=cov_hla,
         cov_nev=cov_nev,
         start_nev=[n[0], e[0], tvd[0]],
+        start_xyz=[
+            float(c[start:stop][0]) for c in (survey.x, survey.y, survey.z)
+        ],
         deg=False,
         unit=survey.unit,
     )
-- 
2.43.0


From df5345efde05b488deac678a5553479911015cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 085/107] fix: maximum_curvature of surveys in feet

---
 welleng/survey.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 08f34ec..37c1445 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1485,8 +1485,14 @@ class Survey:
             stations.
         """
 
+        if self.unit == 'meters':
+            base = 30.
+        else:
+            # the survey is in feet and its dls in deg/100ft
+            base, dls_noise = 100., dls_noise * 30.48 / 30
+
         dls_effective = self.dls + dls_noise
-        radius_effective = radius_from_dls(dls_effective)
+        radius_effective = radius_from_dls(dls_effective) * base / 30.
 
         dogleg1 = (
             (self.delta_md / radius_effective) / 2
-- 
2.43.0


From 064732a301c3157c5d32303aed9d490bfd675c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 086/107] fix: maximum_curvature without noise of straight
 intervals

---
 welleng/survey.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 37c1445..72c6f5f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1513,8 +1513,14 @@ class Survey:
         ]
 
         _survey_new = np.array([
-            [row[-1], *np.degrees(get_angles(row[1], nev=True))[0]]
-            for row in arc1
+            [
+                # an interval without curvature is straight
+                row[-1] if np.isfinite(radius) else delta_md / 2,
+                *np.degrees(get_angles(row[1], nev=True))[0]
+            ]
+            for row, radius, delta_md in zip(
+                arc1, radius_effective[1:], self.delta_md[1:]
+            )
         ])
         _survey_new[:, 0] += self.md[:-1]
 
-- 
2.43.0


From 02f224bf04188c075a505396c0ebebf965ca11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 087/107] fix: maximum_curvature bends vertical stations in the
 plane of their interval

---
 welleng/survey.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 72c6f5f..0342473 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1504,10 +1504,19 @@ class Survey:
             radius_effective
         )
 
+        # the toolface of a vertical station is relative to the azimuth that the
+        # station states, which isn't the one that its vector implies
+        toolfaces = np.where(
+            self.inc_rad == 0,
+            self.toolface + self.azi_grid_rad
+            - get_angles(self.vec_nev, nev=True)[:, 1],
+            self.toolface
+        )
+
         arc1 = [
             get_arc(dogleg, _radius_effective, toolface, vec=vec)
             for dogleg, _radius_effective, toolface, vec in zip(
-                dogleg1[1:], radius_effective[1:], self.toolface[:-1],
+                dogleg1[1:], radius_effective[1:], toolfaces[:-1],
                 self.vec_nev[:-1]
             )
         ]
-- 
2.43.0


From 2dfaf0c12fb1c18ef2047792a5fa21e0dfad6859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 088/107] fix: export_csv of surveys that are in feet or not
 referenced to grid

---
 welleng/survey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 0342473..3e24476 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2619,12 +2619,17 @@ def func(x0, survey, dls_cont, tolerance):
     md, inc, azi, n, e, tvd, dls, tf, br, tr = data.T
     nev = np.column_stack([survey.n, survey.e, survey.tvd])
 
+    # the azimuths of the control points are referenced to grid
+    sh = copy(survey.header)
+    sh.azi_reference = 'grid'
+
     s = Survey(
         md=md,
         inc=inc,
         azi=azi,
         start_nev=nev[0],
-        header=survey.header
+        header=sh,
+        unit=survey.unit
     )
 
     s_nev = np.column_stack([s.n, s.e, s.tvd])
-- 
2.43.0


From 7087601b9d332013fe04766989f74e3146bbf4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 089/107] fix: exported listings state the reference of their
 azimuths

---
 welleng/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 3e24476..f9cb7de 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2538,8 +2538,10 @@ def export_csv(
         f"welleng, version: {__version__}\n"
         f"author, {author}\n"
     ]
+    # the listed azimuths are referenced to grid
+    header_data = {**vars(survey.header), 'azi_reference': 'grid'}
     comments.extend([
-        f"{k}, {v}\n" for k, v in vars(survey.header).items()
+        f"{k}, {v}\n" for k, v in header_data.items()
     ])
     comments += "\n"
     comments = ''.join(comments)
-- 
2.43.0


From ad328ee42b31489ad6a49894e57fb69f871e9b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 090/107] fix: dip that is looked up or left to its default is
 positive downwards

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index f9cb7de..f48da71 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -442,7 +442,8 @@ class SurveyHeader:
             # if not deg:
             #     self.b_total = math.radians(self.b_total)
         if self.dip is None:
-            self.dip = -result['field-value']['inclination']['value']
+            # positive downwards, like that of the error models
+            self.dip = result['field-value']['inclination']['value']
             if not deg:
                 self.dip = math.radians(self.dip)
         if self.declination is None:
-- 
2.43.0


From 2dd57e6f85278fc50340ab2ab4a902f22ab69b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 091/107] fix: the date of a survey is kept when its magnetic
 data cannot be looked up

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index f48da71..10bc0d7 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -431,7 +431,7 @@ class SurveyHeader:
                         latitude=self.latitude,
                         longitude=self.longitude,
                         altitude=self.altitude,
-                        date=self._get_date(date=None)
+                        date=datetime.today().strftime('%Y-%m-%d')
                     )
                 except:  # prevents crashing if there's no connection to the internet - need to have a log that captures when this occurs.
                     # TODO: log when no internet connection prvents updating the result var
-- 
2.43.0


From 965fbf6225d2757cfd03a40e9d1a92339115ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:33 +0000
Subject: [PATCH 092/107] fix: TOTALS of an example workbook are aligned with
 its wellpath

---
 welleng/errors/iscwsa_ingest.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/welleng/errors/iscwsa_ingest.py b/welleng/errors/iscwsa_ingest.py
index 1f192ee..742c598 100644
--- a/welleng/errors/iscwsa_ingest.py
+++ b/welleng/errors/iscwsa_ingest.py
@@ -476,6 +476,13 @@ def load_iscwsa_example(path: str | Path) -> ISCWSAExample:
 
     term_codes = {t.code for t in terms}
     n_stations = wellpath.stations.shape[0]
+    # The TOTALS sheet carries trailing template rows too.
+    if n_stations and totals.md.shape[0] > n_stations:
+        totals = CovarianceStations(
+            md=totals.md[:n_stations],
+            nev=totals.nev[:n_stations],
+            hla=totals.hla[:n_stations],
+        )
     sources: dict[str, ErrorSourceTab] = {}
     for name in wb.sheetnames:
         if name in _NON_SOURCE_SHEETS:
-- 
2.43.0


From aa37276f507a55f4c63080cc03d4c4d70703e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:15 +0000
Subject: [PATCH 093/107] fix: sheets without a term table do not stop a
 workbook from converting

---
 welleng/errors/tools/owsg_to_json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/errors/tools/owsg_to_json.py b/welleng/errors/tools/owsg_to_json.py
index 6d18eb6..58b5e56 100644
--- a/welleng/errors/tools/owsg_to_json.py
+++ b/welleng/errors/tools/owsg_to_json.py
@@ -197,6 +197,9 @@ def _extract_metadata_kv(df: pd.DataFrame) -> dict[str, str]:
 
 def _term_rows(df: pd.DataFrame) -> list[int]:
     rows = []
+    if df.shape[1] <= COL_SING_VERT:
+        # too narrow to hold a term table, e.g. an index or notes sheet
+        return rows
     for i in range(len(df)):
         v = df.iloc[i, COL_NO]
         if isinstance(v, (int, float)) and not pd.isna(v):
-- 
2.43.0


From 36fe73bcfdba0e2f71955a0cdbe1ebfc0511522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:45 +0000
Subject: [PATCH 094/107] fix: stations a rounding error apart are duplicates
 whatever their depth

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 10bc0d7..0582e98 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2651,7 +2651,7 @@ def _remove_duplicates(md, inc, azi, decimals=4):
 
     temp = np.vstack((
         upper[0],
-        lower[lower[:, 0].round(decimals) != upper[:, 0].round(decimals)]
+        lower[(lower[:, 0] - upper[:, 0]).round(decimals) != 0]
     ))
 
     return temp.T
-- 
2.43.0


From 57a462b973d15637cfd15cf5379db998f1514590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 095/107] fix: circle centres at the start of an interval use
 the radius of that interval

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 0582e98..613fda6 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2204,7 +2204,7 @@ def get_circle_radius(survey, **targets):
     cc1 = (
         nev[:-1] - b1
         / np.linalg.norm(b1, axis=1).reshape(-1, 1)
-        * survey.curve_radius[:-1].reshape(-1, 1)
+        * survey.curve_radius[1:].reshape(-1, 1)
     )
     cc2 = (
         nev[1:] - b2
-- 
2.43.0


From f022e96c3ebafd701def70385690f7288c298413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 096/107] fix: torque figures use a unit that exists

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index c9928a4..02ded0b 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -557,7 +557,7 @@ def figure_string_tension_and_torque(
     for k, v, in td.torque.items():
         fig.add_trace(
             go.Scatter(
-                x=((v * ureg('Nm')).to(units['torque'])).m,
+                x=((v * ureg('N*m')).to(units['torque'])).m,
                 y=((td.survey.md * ureg.meters).to(units['depth'])).m,
                 name=f"torque: {k}",
             ),
-- 
2.43.0


From bb64dcb7cb612874dd697ba28ccab1ac202d7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 097/107] fix: hook loads of more than four friction factors
 can be drawn

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 02ded0b..9c2fb2b 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -628,7 +628,7 @@ def figure_hookload(
                 x=x,
                 y=md,
                 name=f"SOFF: {k:.2f}",
-                line=dict(color='blue', dash=lines[i])
+                line=dict(color='blue', dash=lines[i % len(lines)])
             ),
         )
         annotations.append(
@@ -661,7 +661,7 @@ def figure_hookload(
                 x=x,
                 y=md,
                 name=f"PUFF: {k:.2f}",
-                line=dict(color='red', dash=lines[i])
+                line=dict(color='red', dash=lines[i % len(lines)])
             ),
         )
         annotations.append(
-- 
2.43.0


From 22b636f97fa634f6aa56e97b3434bd4abb91f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 098/107] fix: figures of a mesh have the vertices of its end
 caps

---
 welleng/visual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/visual.py b/welleng/visual.py
index 17b45ca..18a92a2 100644
--- a/welleng/visual.py
+++ b/welleng/visual.py
@@ -479,7 +479,8 @@ def _scatter3d(survey, **kwargs):
 
 def _mesh3d(mesh, **kwargs):
     fig = go.Figure()
-    vertices = mesh.vertices.reshape(-1, 3)
+    # the faces of the end caps refer to the centre vertices
+    vertices = np.asarray(mesh.mesh.vertices)
     faces = np.array(mesh.faces)
     n, e, v = vertices.T
     i, j, k = faces.T
-- 
2.43.0


From 9cf9f3dabde3aa9a1cf133b572774337e5f09510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 099/107] fix: a node without a direction has all of its
 attributes

---
 welleng/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/node.py b/welleng/node.py
index cc1c9cb..6142367 100644
--- a/welleng/node.py
+++ b/welleng/node.py
@@ -97,7 +97,7 @@ class Node:
             self.inc_rad = None
             self.inc_deg = None
             self.azi_rad = None
-            self.azi_rad = None
+            self.azi_deg = None
             return
         elif vec is None:
             assert inc is not None and azi is not None, (
-- 
2.43.0


From 27f79e4e853fa32f3bb8c3c277b40c74b963add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:52 +0000
Subject: [PATCH 100/107] fix: the orientation of a drawn target turns it about
 the vertical axis

---
 welleng/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/target.py b/welleng/target.py
index ba622b3..e8af3b9 100644
--- a/welleng/target.py
+++ b/welleng/target.py
@@ -144,6 +144,6 @@ class Target:
             g.flag = self.name
             g.pos=[self.n, self.e, 0]
             g.rotate(self.dip, point=pos, axis=(0,1,0))
-            g.rotate(self.orientation, point=pos, axis=(1,0,0))
+            g.rotate(self.orientation, point=pos, axis=(0,0,1))
 
         return g
-- 
2.43.0


From da73589ec35269c9f5922582e2c4bb88dfa5edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:52 +0000
Subject: [PATCH 101/107] fix: the position of a drawn target is where the
 target is

---
 welleng/target.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/welleng/target.py b/welleng/target.py
index e8af3b9..2b4ec92 100644
--- a/welleng/target.py
+++ b/welleng/target.py
@@ -142,7 +142,6 @@ class Target:
                 # res=self.geometry['res']
             )
             g.flag = self.name
-            g.pos=[self.n, self.e, 0]
             g.rotate(self.dip, point=pos, axis=(0,1,0))
             g.rotate(self.orientation, point=pos, axis=(0,0,1))
 
-- 
2.43.0


From d96ddd5a1a6d0095df2c1d3d2a977497891442bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:06 +0000
Subject: [PATCH 102/107] fix: transformed scenes are reduced with the method
 that trimesh has

---
 welleng/mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 44a17ba..baf3f8c 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -407,9 +407,10 @@ def transform_trimesh_scene(scene, origin=None, scale=100, redux=0.25):
         name, mesh = well
         mesh_new = mesh.copy()
 
-        mesh_new.simplify_quadratic_decimation(
-            int(len(mesh_new.triangles) * redux)
-        )
+        if redux < 1:
+            mesh_new = mesh_new.simplify_quadric_decimation(
+                face_count=int(len(mesh_new.triangles) * redux)
+            )
         mesh_new.vertices -= T
 
         # change axis convention for visualisation #
-- 
2.43.0


From e33d807d36cd1a8090773765d159551105dd93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:06 +0000
Subject: [PATCH 103/107] fix: the origin of a transformed scene may be an
 array

---
 welleng/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index baf3f8c..2953609 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -398,7 +398,7 @@ def transform_trimesh_scene(scene, origin=None, scale=100, redux=0.25):
     """
     assert TRIMESH, "ImportError: try pip install welleng[easy]"
     i = 0
-    if not origin:
+    if origin is None:
         T = np.array([0, 0, 0])
     else:
         T = np.array(origin)
-- 
2.43.0


From 9f5006161d5578efa0b9f5f2251fdf9a1e4b4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 104/107] fix: re-sampling by tvd goes on from a depth on the
 grid at which a well turns

---
 welleng/survey.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 613fda6..69d4060 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2934,6 +2934,15 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
                 node1.interpolated = False
                 break
 
+            # a node that is already at the next depth moves on from it
+            tvd1, tvd2 = node1.pos_nev[2], node2.pos_nev[2]
+            if tvd1 > tvd2 and np.isclose(tvd1, tvds[-1], rtol=0, atol=1e-6):
+                tvds.append(tvds[-1] - step)
+            elif tvd1 < tvd2 and np.isclose(
+                tvd1, tvds[-1] + step, rtol=0, atol=1e-6
+            ):
+                tvds.append(tvds[-1] + step)
+
             # check if heading upwards
             if node1.pos_nev[2] > tvds[-1] >= node2.pos_nev[2]:
                 tvd = tvds[-1]
-- 
2.43.0


From 3448c12560b89f2e1754970b2ab78a9c4e5330c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 105/107] fix: tvd crossings are looked for in the interval
 that the nodes are in

---
 welleng/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 69d4060..f1aa809 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2883,7 +2883,9 @@ def get_node_tvd(survey, node1, node2, tvd, node_origin):
     Node
         A Node at the target TVD between the two input nodes.
     """
-    idx = int(np.searchsorted(survey.md, node2.md, side="left")) - 1
+    # the nodes' depths may be a rounding error beyond those of the stations
+    md = (node1.md + node2.md) / 2
+    idx = int(np.searchsorted(survey.md, md, side="left")) - 1
     x = _get_x_from_tvd(
         survey, tvd, idx,
         node1.md - survey.md[idx], node2.md - survey.md[idx]
-- 
2.43.0


From 629a6c60e516b27651df570eeca1b2d44c905ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:26 +0000
Subject: [PATCH 106/107] fix: re-sampling by tvd starts at the depth that was
 asked for

---
 welleng/survey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index f1aa809..6be3a2f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2919,7 +2919,12 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         A Survey object with stations at regular TVD intervals plus the
         original survey stations.
     """
-    tvds = [start] if start is not None else [survey.tvd[0]]
+    tvd = survey.tvd[0]
+    if start is None:
+        start = tvd
+    # the first depth to look for, at or below the start of the survey
+    start += max(0, np.ceil((tvd - start) / step)) * step
+    tvds = [start - step]
     nodes = []
 
     for i, md2 in enumerate(survey.md):
-- 
2.43.0


From 1b69eb57d89df76cc05e2a4cf963071656b1483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:23 +0000
Subject: [PATCH 107/107] fix: XYM4E keeps its sign above 90 degrees like the
 other XYM terms

---
 welleng/errors/tool_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 591b07a..31e66eb 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1560,7 +1560,7 @@ def XYM4E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
 
     dpde = np.zeros((len(error.survey.md), 3))
     dpde[1:, 1] = (
-        cos(error.survey.inc_rad[1:])
+        np.absolute(cos(error.survey.inc_rad[1:]))
         * sin(error.survey.azi_true_rad[1:])
         * coeff[1:]
     )
@@ -1569,7 +1569,7 @@ def XYM4E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
         dpde[1:, 2] = np.nan_to_num(
             (
                 (
-                    cos(error.survey.inc_rad[1:])
+                    np.absolute(cos(error.survey.inc_rad[1:]))
                     * cos(error.survey.azi_true_rad[1:])
                     / sin(error.survey.inc_rad[1:])
                 )
-- 
2.43.0

