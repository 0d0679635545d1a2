From fdc430747b753d34fbf6db73902e53f7237f9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 01/57] fix: CCDRedistNormal draws detected energies only for
 photons that hit

---
 marxs/optics/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 755c282..6cd012a 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -194,7 +194,7 @@ class CCDRedistNormal(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         # Implicit unit of photon energy is keV, but here we need it written out.
-        phot_en = u.Quantity(photons["energy"])
+        phot_en = u.Quantity(photons["energy"][intersect])
         det_en = norm.rvs(
             loc=phot_en,
             scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()),
-- 
2.43.0


From 98099360c7e2d48fb2bf2c1bc129abf424413a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 02/57] fix: Q_reflection accepts the (n, 4) input it documents

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 7391b5f..6bfc724 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -82,7 +82,7 @@ def Q_reflection(delta_dir):
     q : np.array of shape (n, 4, 4)
         Array of parallel transport ray tracing matrices.
     '''
-    if delta_dir.shape != 2:
+    if delta_dir.ndim != 2:
         raise ValueError('delta_dir must have dimension (n, 4).')
     m = delta_dir[..., None, :] * delta_dir[..., :, None]
     return np.eye(4) - 2 / (np.linalg.norm(delta_dir, axis=1)**2)[:, None, None] * m
-- 
2.43.0


From fc19275f4312c03aa38d67c86b203e37650c772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 03/57] fix: parallel_transport passes its keyword arguments on

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 6bfc724..836b11d 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -164,6 +164,6 @@ def parallel_transport(dir_old, dir_new, pol_old, **kwargs):
     pol : np.array of shape (m, 4)
         Parallel transported vectors.
     '''
-    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3])
+    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3], **kwargs)
     out = np.einsum('ijk,ik->ij', pmat, pol_old[:, :3])
     return e2h(out, 0)
-- 
2.43.0


From db07b233de8ebf46d454c7f83f6443a8cea19681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 04/57] fix: GratingArrayStructure leaves enough room for each
 element on an arc

The angle an element of size d covers at radius r is d / r. With the additional
factor 2 pi the elements of a densely populated arc overlapped.
---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1116e68..33b9144 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -869,7 +869,7 @@ class GratingArrayStructure(ElementsOnTorus):
             return self.phi
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
-        element_angle = self.d_element[1] / (2. * np.pi * radius)
+        element_angle = self.d_element[1] / radius
         # thickness of space between elements, distributed equally
         d_between = (anglediff(self.phi) - n * element_angle) / (n + 1)
         centerangles = d_between + 0.5 * element_angle + np.arange(n) * (d_between + element_angle)
-- 
2.43.0


From 1543a01ed409f18031da7317ea57d0748e1a5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 05/57] fix: RowlandTorus.xyzw2parametric can mark
 self-intersections as nan

intersectvalid=False inverted the float array of factors and raised a TypeError.
---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 33b9144..3bafb17 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -275,7 +275,7 @@ class RowlandTorus(MarxsElement, Geometry):
         ind = factor != 0
         phi[ind] = np.arctan2(xyz[ind, 2] / factor[ind], xyz[ind, 0] / factor[ind])
         if not intersectvalid:
-            phi[~factor] = np.nan
+            phi[~ind] = np.nan
 
         return theta, phi
 
-- 
2.43.0


From a47e0d10552b0f02492ec4e4a0d956a0b80020bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 06/57] fix: RowlandTorus.xyzw2parametric for points exactly
 above the ring

For points at a distance R from the axis the sign was 0, and theta came out as
0 instead of +/- pi/2 (with normal vectors to match).
---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 3bafb17..f0b88ac 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -267,7 +267,7 @@ class RowlandTorus(MarxsElement, Geometry):
         if not np.allclose(self.quartic(xyz, transform=False) / self.R**4., 0.):
             raise ValueError('Parametric representation is only defined for points on torus surface.')
         # There are two branches and we can use the sign to distinguish between them
-        s = np.sign(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) - self.R)
+        s = np.where(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) < self.R, -1, 1)
         theta = np.arcsin(s * xyz[:, 1] / self.r) + (s < 0) * np.pi
 
         factor = self.R + self.r * np.cos(theta)
-- 
2.43.0


From 0870fb41a65aae3e2e110fea2d39bbc41837a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:31 +0000
Subject: [PATCH 07/57] fix: elements_of_class descends into matching
 containers and passes stop_at_first on

---
 marxs/simulator/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 7d034eb..e81d8b6 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -94,10 +94,10 @@ class BaseContainer(SimulationSequenceElement):
                 return a
 
         for e in self.elements:
-            if compfunc(e, cls):
+            if hasattr(e, 'elements_of_class'):
+                a += e.elements_of_class(cls, subclass_ok, stop_at_first)
+            elif compfunc(e, cls):
                 a += [e]
-            elif hasattr(e, 'elements_of_class'):
-                a += e.elements_of_class(cls, subclass_ok)
         return a
 
 
-- 
2.43.0


From f579086767ff13c397972d86f6df4c0d003236f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:43 +0000
Subject: [PATCH 08/57] fix: run_tolerances_for_energies2 uses subclass_ok when
 selecting the elements to move

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 42050d5..dbbae22 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -442,7 +442,7 @@ def run_tolerances_for_energies2(source, energies, instrum, cls, wigglefunc,
                                       Sequence(elements=instrum.elements[:ind]),
                                       Sequence(elements=instrum.elements[ind:]),
                                       wigglefunc,
-                                      instrum.elements_of_class(cls),
+                                      instrum.elements_of_class(cls, subclass_ok),
                                       parameters,
                                       analyzefunc,
                                       reset,
-- 
2.43.0


From ae5036e8cd856891d0b5bd82e9c35a819d60ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:48 +0000
Subject: [PATCH 09/57] fix: NumericalChirpFinder uses the energy it is given

---
 marxs/design/bendgratings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index d30ca19..a9682f5 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -125,6 +125,7 @@ class NumericalChirpFinder():
     def reset_photon(self):
         self.photon['pos'] = self.pos
         self.photon['dir'] = self.dir
+        self.photon['energy'][:] = self.energy
         self.photon['probability'] = 1
 
     def run_photon(self):
-- 
2.43.0


From 61df67415c8d7d4ee71cac9a1bef1b5b472d2952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 10/57] fix: BendNumericalChirpFinder reads the angular limits
 of the bent grating

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index a9682f5..c0aea61 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -156,7 +156,7 @@ class NumericalChirpFinder():
 class BendNumericalChirpFinder(NumericalChirpFinder):
     def posongrat(self):
         trans, rot, zoom, shear = decompose44(self.grat.geometry.pos4d)
-        p_lim = self.grat.geometry.phi_limits
+        p_lim = self.grat.geometry.coos_limits[0]
         p_center = np.mean(p_lim)
         # Not accounting for 2 pi wrap and crazy stuff
         p_half = (p_lim[1] - p_lim[0]) / 2
-- 
2.43.0


From 818fcec57ca0a8e8ba020229ccc1dd56d5f43bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 11/57] fix: RadialDistributionSource places photons with
 spherical geometry

For large sources SphericalDiskSource was not distributed evenly over the
disk and raised a ValueError for radii > 90 deg, because offsets in longitude
and latitude were calculated in the small-angle approximation.
---
 marxs/source/basesources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index df749a8..9dcbd85 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -383,7 +383,9 @@ class RadialDistributionSource(AstroSource):
         n = len(photons)
         phi = np.random.rand(n) * 2. * np.pi * u.rad
         d = self.func(n)
-        relative_coords = SkyCoord(d * np.sin(phi), d * np.cos(phi),
+        # Point at distance d and position angle phi from the center
+        relative_coords = SkyCoord(np.arctan2(np.sin(d) * np.sin(phi), np.cos(d)),
+                                   np.arcsin(np.sin(d) * np.cos(phi)),
                                    frame=relative_frame)
         origin_coord = relative_coords.transform_to(self.coords)
         self.set_pos(photons, origin_coord)
-- 
2.43.0


From aa23ab99d6d512b1eebd745b28ac6beb82a650e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:30 +0000
Subject: [PATCH 12/57] fix: poisson_process never returned if less than one
 more photon was expected

If the remaining expected number of photons was below 1, the loop added arrays
of size 0 forever, e.g. for short exposures or faint sources.
---
 marxs/source/basesources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 9dcbd85..492c04c 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -69,10 +69,10 @@ def poisson_process(rate: (u.s * u.cm**2)**(-1)):
         # Make 10 % more numbers then we expect to need, because it's random
         times = expon.rvs(scale=1./fullrate.to(1 / u.s),
                           size=int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)))
-        # If we don't have enough numbers right now, add some more.
+        # If we don't have enough numbers right now, add some more (at least one).
         while (times.sum() * u.s) < exposuretime:
             times = np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),
-                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
+                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)) + 1)])
         times = np.cumsum(times) * u.s
         return times[times < exposuretime]
     return poisson_rate
-- 
2.43.0


From 78014fbd8abc58101a0ea20555efa7ccefaf26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:18 +0000
Subject: [PATCH 13/57] fix: resolvingpower_from_photonlist returned nan for
 orders with exactly 20 photons

The documentation promises nan for fewer than 20 photons.
---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c895d80..c0000c9 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -259,7 +259,7 @@ def resolvingpower_from_photonlist(photons, orders,
 
     for i, o in enumerate(orders):
         ind = (photons[ordercol] == o)
-        if ind.sum() > 20:
+        if ind.sum() >= 20:
             # There is a .value here to work around https://github.com/astropy/astropy/issues/13281
             meanpos, medianpos, stdpos = sigma_clipped_stats(photons[col][ind].value)
         else:
-- 
2.43.0


From 58581dde319d3e750500f227b01857016a99c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:40 +0000
Subject: [PATCH 14/57] fix: facet_table renamed the output columns of the
 plane that is passed in

---
 marxs/analysis/coords.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/analysis/coords.py b/marxs/analysis/coords.py
index df61710..aa42f93 100644
--- a/marxs/analysis/coords.py
+++ b/marxs/analysis/coords.py
@@ -1,4 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
+from copy import copy
+
 import numpy as np
 from astropy.table import Table
 
@@ -72,6 +74,8 @@ def facet_table(container, project_plane=ProjectOntoPlane()):
             >>> from astropy import table
             >>> table.join(photons, facettab, join_type='left')  # doctest: +SKIP
     '''
+    # Work on a copy to keep the names of the output columns of the input plane
+    project_plane = copy(project_plane)
     project_plane.loc_coos_name = ['facet_projx', 'facet_projy']
 
     facetpos = h2e(np.stack(container.elem_pos)[:, :, 3])
-- 
2.43.0


From 6572d7b41c4ca36ad0ed9a31d9dffd6e30e5af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 15/57] fix: OSIPBase.osip_tab did not return the widths that
 belong to osip_range

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 360a759..28e20da 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -81,7 +81,7 @@ class OSIPBase(ABC):
         osiprange = self.osip_range(chan_mid, order)
         osiprange = osiprange.to(u.eV, equivalencies=u.spectral())
         E = chan_mid.to(u.eV, equivalencies=u.spectral())
-        return E + osiprange * np.array([-1, 1])[:, np.newaxis]
+        return (osiprange - E) * np.array([-1, 1])[:, np.newaxis]
 
     @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
     def osip_range(self, chan_mid, order) -> u.eV:
-- 
2.43.0


From 44074fc471d190f9aca1fa75f501d6a222ae2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 16/57] fix: OSIP plots for first order crashed because
 osip_factor returned a scalar

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 28e20da..e857582 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -137,7 +137,7 @@ class OSIPBase(ABC):
         '''
 
         if np.sign(o_nominal) != np.sign(o_true):
-            return 0.
+            return np.zeros(len(chan_mid_nominal))
 
         osiprange = self.osip_range(chan_mid_nominal, o_nominal)
         Etrue = chan_mid_nominal.to(u.eV, equivalencies=u.spectral()) * \
-- 
2.43.0


From b92380f86a757c46ff7fdfec6a9fb61d7e6b6ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 17/57] fix: RMF.rmf assumed TLMIN=1 and selected the wrong
 channels for other RMFs

---
 marxs/reduction/ogip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 182bc09..b81d83e 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -367,8 +367,9 @@ class RMF:
             rmf value in each bin
         '''
         row = self.row(energy)
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - 1,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i]-1)
+        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
+        ind = np.concatenate([np.arange(row['F_CHAN'][i] - tlmin,
+                                        row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
                               for i in range(row['N_GRP'])])
         return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
             np.asanyarray(row['MATRIX'])
-- 
2.43.0


From 09441c83239c13b9aae3ad3a6fe75c2427295242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 18/57] fix: RMF set DETCHANS of the matrix to the number of
 energies, not of channels

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index b81d83e..606bc14 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -228,7 +228,7 @@ class RMF:
         self.matrix = matrix
         self.ebounds = ebounds
         for m in [self.matrix, self.ebounds]:
-            m.meta['DETCHANS'] = len(m)
+            m.meta['DETCHANS'] = len(self.ebounds)
             if CHANTYPE is not None:
                 m.meta['CHANTYPE'] = CHANTYPE
             if HDUCLAS3 is not None:
-- 
2.43.0


From 45e17a418bac32574168a4b647fbd9256c1049d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 19/57] fix: ColOrKeyTable kept returning the old header value
 after a column was set

---
 marxs/reduction/ogip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 606bc14..80c5e6e 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -78,6 +78,8 @@ class ColOrKeyTable(QTable):
                 self.remove_column(item)
         else:
             super().__setitem__(item, value)
+            if isinstance(item, str):
+                self.meta.pop(item, None)
 
 
 def _check_mandatory_keywords(tab, extra_keywords=[]):
-- 
2.43.0


From 4fbef8a9ccb46fbc0eef5baf3ce5c69d2f394ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 20/57] fix: RMF.from_Gauss_sigma failed for energy input and
 modified the input table

---
 marxs/reduction/ogip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 80c5e6e..09d97e9 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -499,8 +499,9 @@ class RMF:
         # This module requires sherpa, so we import it down here.
         # That way, the rest of this class can be used even when Sherpa is not installed.
         from marxs.reduction.lsfparm import make_rmf
+        sigmatab = sigmatab.copy()
         if 'energy' in sigmatab.colnames and 'wave' not in sigmatab.colnames:
-            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalenicies=u.spectral())
+            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalencies=u.spectral())
             sigmatab['sigma_wave'] = sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']
         sigmatab.sort('wave')
 
-- 
2.43.0


From b9178e5a3eab85451365f5ac34f303c8b769a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 21/57] fix: header keywords DATE and HDUCLASS of LSFPARM
 tables were tuples

---
 marxs/reduction/lsfparm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index 7bd0223..967be15 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -183,9 +183,9 @@ def empty_lsfparmtable(widths, waves, model, extname, order):
     tab.meta['RAND_TG'] = '0.0'   # make this a parameter
     tab.meta['LONGSTRN'] = 'OGIP 1.0'
     tab.meta['CREATOR'] = 'lsfparm.py'  # update
-    tab.meta['DATE'] = str(datetime.datetime.now()).replace(' ', 'T')[:19],
+    tab.meta['DATE'] = str(datetime.datetime.now()).replace(' ', 'T')[:19]
     tab.meta['CONTENT'] = 'CDB_' + tab.meta['EXTNAME'] + '_LSFPARM'
-    tab.meta['HDUCLASS'] = 'ASC',
+    tab.meta['HDUCLASS'] = 'ASC'
     tab.meta['HDUCLAS1'] = 'PARAMETERS'
     tab.meta['HDUCLAS2'] = 'PSF'
     tab.meta['HDUCLAS3'] = 'LSF'
-- 
2.43.0


From e599bebbf1fdbddc5a1120ff1ddc2e4e8543846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:28 +0000
Subject: [PATCH 22/57] fix: RMFs in fixed-length format could not be evaluated
 with one group per row and padding was returned

---
 marxs/reduction/ogip.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 09d97e9..c3ad175 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -345,11 +345,13 @@ class RMF:
         rmf = np.zeros(len(self.en_mid))
         row = self.row(energy)
         tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
+        # FITS files with one group per row store numbers, not arrays
+        fchan = np.atleast_1d(row['F_CHAN'])
+        nchan = np.atleast_1d(row['N_CHAN'])
         for i in range(row['N_GRP']):
             # Python is 0 indexed, FITS is 1 indexed
-            chans = slice(row['F_CHAN'][i] - tlmin,
-                          row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
-            matindex = np.cumsum(np.concatenate(([0], row['N_CHAN'])))
+            chans = slice(fchan[i] - tlmin, fchan[i] + nchan[i] - tlmin)
+            matindex = np.cumsum(np.concatenate(([0], nchan)))
             mat = slice(matindex[i], matindex[i + 1])
             rmf[chans] = row['MATRIX'][mat]
         return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf
@@ -370,11 +372,14 @@ class RMF:
         '''
         row = self.row(energy)
         tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - tlmin,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
+        fchan = np.atleast_1d(row['F_CHAN'])
+        nchan = np.atleast_1d(row['N_CHAN'])
+        ind = np.concatenate([np.arange(fchan[i] - tlmin,
+                                        fchan[i] + nchan[i] - tlmin)
                               for i in range(row['N_GRP'])])
+        # In fixed-length format the matrix is padded at the end
         return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
-            np.asanyarray(row['MATRIX'])
+            np.asanyarray(row['MATRIX'])[:len(ind)]
 
     def rmf_angstrom(self, energy):
         en_lo, en_hi, rmf = self.rmf(energy)
-- 
2.43.0


From 1f5d6f0c5828c7b029c2cc8e5eab17da2c061df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:05 +0000
Subject: [PATCH 23/57] fix: Lynx could not be set up because element grids got
 arguments they do not accept

---
 marxs/missions/lynx/lynx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index d6f76fc..7140b40 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -65,7 +65,7 @@ conf = {'metashellgeometry': Table.read(get_pkg_data_filename('data/metashellgeo
                                      'pixsize': 0.016}},
         'gas_kwargs': {'parallel_spec': np.array([0., 1., 0., 0.]),
                        'normal_spec': np.array([0, 0, 0, 1]),
-                       'x_range': [7e3, 1e4],
+                       'guess_distance': 1e4,
                        'elem_class': CATL1L2Stack,
                        'elem_args': {'d': 2e-4,
                                      'order_selector': ralfgrating.order_selector_Si,
@@ -133,7 +133,8 @@ class LynxGAS(CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super(RowlandDetArray, self).__init__(conf['rowland'], **conf['det_kwargs'],
+        super(RowlandDetArray, self).__init__(rowland=conf['rowland'],
+                                              **conf['det_kwargs'],
                                               guess_distance=25.)
 
 
-- 
2.43.0


From e503c9ed4f0cecc1a55b8bda44eb70b42fbac5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:44 +0000
Subject: [PATCH 24/57] fix: unknown boom dimension raised AttributeError
 instead of the intended ValueError

---
 marxs/missions/arcus/boom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index f8a8204..9b9935a 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -52,7 +52,7 @@ class ThreeSidedBoom(Parallel):
             if hasattr(self, k):
                 setattr(self, k, boom_dims[k])
             else:
-                raise ValueError('{} has not attribute {}'.format(self.name, k))
+                raise ValueError('{} has no attribute {}'.format(type(self).__name__, k))
         kwargs['elem_pos'] = self.pos_spec()
         kwargs['elem_class'] = Rod
         kwargs['elem_args'] = {}
-- 
2.43.0


From 1c94e12beace93c450c6b76d1f4981f33af99019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 25/57] fix: triangles of combined triangulations pointed to
 wrong points if number of points differs

---
 marxs/visualization/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index c905bd8..bfd3136 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -290,8 +290,7 @@ def combine_disjoint_triangulations(list_xyz, list_triangles):
 
     '''
     xyz = np.vstack(list_xyz)
-    n_offset = np.cumsum([a.shape[0] for a in list_xyz])
-    n_offset -= n_offset[0]
+    n_offset = np.cumsum([0] + [a.shape[0] for a in list_xyz[:-1]])
     triangles = np.vstack([list_triangles[i] + n_offset[i] for i in
                            range(len(n_offset))])
     return xyz, triangles
-- 
2.43.0


From 8017caa0be6097c67fc0123305917caf184ee5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 26/57] fix: x3d plot_rays used the scalars of the first ray
 instead of the first node of each ray

---
 marxs/visualization/x3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 24c4cd1..5a29c27 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -423,7 +423,7 @@ def plot_rays(
         pass
     elif scalar.shape == (n, N):
         warn('Color Per Vertex does not yet work in the X3D library used. Using only color for first node in each ray.')
-        scalar = scalar[0, :]
+        scalar = scalar[:, 0]
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-- 
2.43.0


From 7cfed167cea8651deb132ba0ad05ac8d04916c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 27/57] fix: x3d plot functions did not return the scene they
 are documented to return

---
 marxs/visualization/x3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 5a29c27..557d97b 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -246,6 +246,7 @@ def indexed_triangle_set(xyz, index, display, *, scene):
                      geometry=x3d.IndexedTriangleSet(coord=x3d.Coordinate(point=_format_points(xyz)),
                                                      index=[int(i) for i in index.reshape(-1, 3).flatten()],
                                                      solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -279,6 +280,7 @@ def surface(obj, display, *, scene):
                                         x3d.Coordinate(point=_format_points(xyz.reshape((-1, 3)))),
                                         coordIndex=list(coordIndex),
                                         solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -345,6 +347,7 @@ def box(obj, display, *, scene):
         ),
     )
     scene.children.append(shape)
+    return scene
 
 @empty_scene
 @format_doc(doc_plot)
-- 
2.43.0


From 82a591ec17621f661f1a738871ed7bd71d18c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 28/57] fix: three.js output failed with NameErrors for rays
 and all shapes

---
 marxs/visualization/threejs.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 43dc549..6290f1a 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -88,7 +88,7 @@ def materialspec(display, material):
         String that can be pasted into javasript files.
     '''
     matdict = materialdict(display, material)
-    spec = ['{0} : {1}'.format(k, matdict[v]) for k in matdict]
+    spec = ['{0} : {1}'.format(k, matdict[k]) for k in matdict]
     return ', '.join(spec)
 
 def _format_plot_rays_input(data, scalar, cmap, prop):
@@ -139,7 +139,7 @@ def plot_rays(data, outfile, scalar=None, cmap=None,
         If ``None`` the default matplotlib colormap will be used, otherwise the colormap
         can be specified in this keyword.
     '''
-    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prob)
+    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prop)
     material = materialspec(prop, 'LineBasicMaterial')
 
     for i in range(n):
@@ -178,9 +178,7 @@ def plot_object(obj, display, outfile, **kwargs):
     correct plotting method for its shape. Javascript code to generate the correct
     represenation in three.js is added to the open file ``outfile``.
     '''
-    if 'outfile' not in kwargs:
-        raise TypeError('Required argument "outfile" missing.')
-    out = plot_object_general(plot_registry, obj, display=display,outfile=outfile, **kwargs)
+    out = utils.plot_object_general(plot_registry, obj, display=display, outfile=outfile, **kwargs)
     return out
 
 
@@ -192,29 +190,29 @@ def container(obj, display, outfile):
     (if it is a container). We need to flatten the list here to avoid
     arbitrarily deep recursion.
     '''
-    return [plot_obj(e, e.display, outfile) for e in obj.elements]
+    return [plot_object(e, e.display, outfile) for e in obj.elements]
 
 @format_doc(doc_plot)
-def box(obs, display, outfile):
+def box(obj, display, outfile):
     '''Output three.js commands to include a box-shaped optical element.'''
     matrixstring = ', '.join([str(i) for i in obj.pos4d.flatten()])
     if not ('side' in display):
         display['side'] = 'THREE.DoubleSide'
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+    material = materialspec(display, 'MeshStandardMaterial')
     outfile.write('''
     var geometry = new THREE.BoxGeometry( 2, 2, 2 );
     var material = new THREE.MeshStandardMaterial( {{ {materialspec} }} );
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(materialspec=material,
                                  matrix=matrixstring))
 
 @format_doc(doc_plot)
 def triangulation(obj, display, outfile):
     '''Output commands for a plane with an inner hole.'''
     xyz, triangles = obj.geometry.triangulate(display)
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+    material = materialspec(display, 'MeshStandardMaterial')
     outfile.write('// {}\n'.format(obj.name))
     outfile.write('var geometry = new THREE.BufferGeometry(); \n')
     outfile.write('var vertices = new Float32Array([')
@@ -235,7 +233,7 @@ def triangulation(obj, display, outfile):
     outfile.write('''var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
         var mesh = new THREE.Mesh( geometry, material );
         scene.add( mesh );
-        '''.format(materialspec=materialspec))
+        '''.format(materialspec=material))
 
 @format_doc(doc_plot)
 def torus(obj, display, outfile):
@@ -247,7 +245,7 @@ def torus(obj, display, outfile):
     '''
     theta = display.get('coo1', [0, 2 * np.pi])
     phi = display.get('coo2', [0, 2 * np.pi])
-    materialspec = materialspec(obj.display, 'MeshStandardMaterial')
+    material = materialspec(obj.display, 'MeshStandardMaterial')
     torusparameters = '{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}'.format(obj.R, obj.r,
                                                                       int(np.rad2deg(theta[1])),
                                                                       int(np.rad2deg(phi[1])),
@@ -264,7 +262,7 @@ def torus(obj, display, outfile):
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(materialspec=material,
                                  torusparameters=torusparameters,
                                  matrix=matrixstring))
 
-- 
2.43.0


From f5f4ee7e7da20161a326e3351ea4649e945e4609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 29/57] fix: json output of containers failed with NameError

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 51fd38b..59821be 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -88,7 +88,7 @@ def container(obj, display=None,  **kwargs):
     '''
     out = []
     for elem in obj.elements:
-        elemout = plot_obj(elem, elem.display)
+        elemout = plot_object(elem, elem.display)
         if isinstance(elemout, list):
             out.extend(elemout)
         elif (elemout is None):
-- 
2.43.0


From 75fb8a2c71f34bbaa9e6b6641f7dcd5fec96a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 30/57] fix: writing json with a photon list failed instead of
 storing its meta data

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 59821be..591da39 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -219,7 +219,7 @@ def write(fileobject, data, photons=None):
              'elements': data}
 
     if photons is not None:
-        data['runinfo'] = photons.meta()
+        jdata['runinfo'] = dict(photons.meta)
 
     if HAS_JSONSCHEMA:
         path =  os.path.abspath(os.path.dirname(__file__))
-- 
2.43.0


From 242c143160f5330c1cb5c56826c2905ea03be7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 31/57] fix: json output of torus was not in the column order
 of three.js, so its position was lost

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 591da39..6fdf5f3 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -151,7 +151,7 @@ def torus(obj, display, theta0=0., thetaarc=2*np.pi, phi0=0., phiarc=np.pi * 2):
     out['geometrypars'] = (obj.R, obj.r,
                            int(np.rad2deg(theta[1])), int(np.rad2deg(phi[1])),
                            theta[1], theta[0], phi[1], phi[0])
-    out['pos4d'] = [obj.pos4d.flatten().tolist()]
+    out['pos4d'] = [obj.pos4d.T.flatten().tolist()]
 
     if not ('side' in display):
         out['materialproperties']['side'] = 2
-- 
2.43.0


From 5ce3ff74e5fc7bd3275cf1177e59b0489fb0923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 32/57] fix: making a plane with a hole set r_inner in the
 geometry dictionary shared by all geometries

---
 marxs/math/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/math/geometry.py b/marxs/math/geometry.py
index 3780123..670aeaa 100644
--- a/marxs/math/geometry.py
+++ b/marxs/math/geometry.py
@@ -288,8 +288,9 @@ class PlaneWithHole(FinitePlane):
     inner_factor = 0
 
     def __init__(self, kwargs):
-        self._geometry['r_inner'] = kwargs.pop('r_inner', 0.)
+        r_inner = kwargs.pop('r_inner', 0.)
         super().__init__(kwargs)
+        self._geometry['r_inner'] = r_inner
 
     def triangulate(self, display={}):
         '''Return a triangulation of the aperture hole embedded in a square.
-- 
2.43.0


From a69244b84b019c64439a0cb9d23bf83f51486b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 33/57] fix: abstract aperture methods returned the
 NotImplementedError class instead of raising it

---
 marxs/optics/aperture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/optics/aperture.py b/marxs/optics/aperture.py
index 8a096f2..ec81690 100644
--- a/marxs/optics/aperture.py
+++ b/marxs/optics/aperture.py
@@ -33,7 +33,7 @@ class BaseAperture(object):
         This does not take into account any projection effects for
         apertures that are not perpendicular to the optical axis.
         '''
-        return NotImplementedError
+        raise NotImplementedError
 
 
 class FlatAperture(BaseAperture, FlatOpticalElement):
@@ -63,7 +63,7 @@ class FlatAperture(BaseAperture, FlatOpticalElement):
         x, y : arrays of floats
             (x, y) coordinates of the photons in the local frame
         '''
-        return NotImplementedError
+        raise NotImplementedError
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         x, y = self.generate_local_xy(intersect.sum())
-- 
2.43.0


From f4b80ea2820f5b884a2720ed1dbebb05fbf832f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 34/57] fix: outline of a baffle was triangulated in the x-y
 plane, not in the plane of the baffle

---
 marxs/optics/baffles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/marxs/optics/baffles.py b/marxs/optics/baffles.py
index e49a4a3..edfaef1 100644
--- a/marxs/optics/baffles.py
+++ b/marxs/optics/baffles.py
@@ -42,14 +42,14 @@ class Baffle(FlatOpticalElement):
         '''
         r_out = self.display.get('outer_factor', 3)
         g = self.geometry
-        outer = h2e(g['center']) + r_out * np.vstack([h2e( g['v_x']) + h2e(g['v_y']),
-                                                      h2e(-g['v_x']) + h2e(g['v_y']),
-                                                      h2e(-g['v_x']) - h2e(g['v_y']),
-                                                      h2e( g['v_x']) - h2e(g['v_y'])
+        outer = h2e(g['center']) + r_out * np.vstack([h2e( g['v_y']) + h2e(g['v_z']),
+                                                      h2e(-g['v_y']) + h2e(g['v_z']),
+                                                      h2e(-g['v_y']) - h2e(g['v_z']),
+                                                      h2e( g['v_y']) - h2e(g['v_z'])
         ])
-        inner =  h2e(g['center']) + np.vstack([h2e( g['v_x']) + h2e(g['v_y']),
-                                               h2e(-g['v_x']) + h2e(g['v_y']),
-                                               h2e(-g['v_x']) - h2e(g['v_y']),
-                                               h2e( g['v_x']) - h2e(g['v_y'])
+        inner =  h2e(g['center']) + np.vstack([h2e( g['v_y']) + h2e(g['v_z']),
+                                               h2e(-g['v_y']) + h2e(g['v_z']),
+                                               h2e(-g['v_y']) - h2e(g['v_z']),
+                                               h2e( g['v_y']) - h2e(g['v_z'])
         ])
         return plane_with_hole(outer, inner)
-- 
2.43.0


From 3f8aa6c7b3da892561e3d6ad59824506b148f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 35/57] fix: offsets of the ACIS detector could not be set
 (list used as dictionary key)

---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 19d940b..ee443ba 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -83,9 +83,9 @@ class ACIS(Parallel):
         # This stuff is Chandra specific, but applies to HRC, too.
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
-        self.detoffset = np.array([kwargs.pop(['DetOffsetX'], 0),
+        self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
                                     0,
-                                    kwargs.pop(['DetOffsetY'], 0)])
+                                    kwargs.pop('DetOffsetY', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
-- 
2.43.0


From 320c93e5524ea12aea6a9738b70eca613e4e0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 36/57] fix: Chandra and ACIS never wrote their header keywords
 (containers are called, they have no process_photons)

---
 marxs/missions/chandra/chandra_global.py | 4 ++--
 marxs/missions/chandra/det_acis.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index d25514a..aa76937 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -11,10 +11,10 @@ class Chandra(Sequence):
 
 
     '''
-    def process_photons(self, photons):
+    def __call__(self, photons):
         photons.meta['MISSION'] = ('AXAF', 'Mission')
         photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
-        return super().process_photons(photons)
+        return super().__call__(photons)
 
     def write_evt(self, photons, filename):
         '''Write a Chandra event level 1 file.
diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index ee443ba..68f8707 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -149,8 +149,8 @@ class ACIS(Parallel):
             pos4d.append(A)
         return pos4d
 
-    def process_photons(self, photons, *args, **kwargs):
-        photons = super().process_photons(photons, *args, **kwargs)
+    def __call__(self, photons, *args, **kwargs):
+        photons = super().__call__(photons, *args, **kwargs)
         photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
         photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
         photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
-- 
2.43.0


From 0d7fdd8c2651bf52a8101f5306b0fa33f560ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 37/57] fix: Lissajous dither with a roll amplitude raised
 UnboundLocalError

---
 marxs/missions/chandra/dither.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 589a272..1571086 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -84,6 +84,7 @@ class LissajousDither(FixedPointing):
         pointing_dir = np.zeros_like(dither.value)
 
         # common case for Chandra
+        constant_roll = False
         if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
             mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
             constant_roll = True
-- 
2.43.0


From cb885facd8e9d330673a3a8469d5fe8573164e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:35 +0000
Subject: [PATCH 38/57] fix: LissajousDither.write_asol failed because pointing
 is a plain array in radian

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 1571086..2579383 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -152,7 +152,7 @@ class LissajousDither(FixedPointing):
 
         '''
         time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
-        pointing = self.pointing(time).to(u.deg).value
+        pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
                      )
-- 
2.43.0


From 73525e3d8f97e7610eec75477c76d78aff760c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:35 +0000
Subject: [PATCH 39/57] fix: sort_columns called the photon table instead of
 selecting columns

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index f4d23b5..5110347 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -208,4 +208,4 @@ def sort_columns(photons):
     othercol = list(othercol)
     othercol.sort()
     ordered_cols.extend(othercol)
-    return photons(ordered_cols)
+    return photons[ordered_cols]
-- 
2.43.0


From 433ce25c7eb4d8ded5c6b21ca716ab4cb3e42a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:35 +0000
Subject: [PATCH 40/57] fix: defaults for content and hduclass in
 complete_header were swapped

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 5110347..d408e24 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -119,7 +119,7 @@ def add_evt_column_header(header, data):
     header['RADECSYS'] = ('ICRS', 'WCS system')
 
 
-def complete_header(header, data=None, content=['UNKNOWN'], hduclass='UNKNOWN'):
+def complete_header(header, data=None, content='UNKNOWN', hduclass=['UNKNOWN']):
     '''Complete fits header for Chandra fits files.
 
     This method add the common keywords that are required for all CXC fit files.
-- 
2.43.0


From e7566b82e1229c5c494cf616c97963f812370720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:35 +0000
Subject: [PATCH 41/57] fix: add_evt_column_header used iterkeys and removed
 keys while iterating

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index d408e24..8a05392 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -87,7 +87,7 @@ DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
 def add_evt_column_header(header, data):
     '''Add CIAO keywords to header of an eventfile.'''
     # Clean out column related keywords that may not be valid any longer.
-    for k in header.iterkeys():
+    for k in list(header):
         if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
             del header[k]
     instr = header['INSTRUME'][0]
-- 
2.43.0


From d5b03d6116ba14ff66ac2b75745f620d1883b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:35 +0000
Subject: [PATCH 42/57] fix: observation info component was never written to
 the header

---
 marxs/missions/chandra/fitsheaders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 8a05392..b83500a 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -75,6 +75,7 @@ def complete_O(header):
          ('OBSERVER', ('MARXS', 'This is a simulation.')),
          ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length')),
          ]
+    update_header(header, h)
 
 
 DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
-- 
2.43.0


From 9ac251cee610f89b5ab7fca5fb54b2c67ac7d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 43/57] fix: CTYPE for DEC has eight characters

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index b83500a..ba5ca03 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -113,7 +113,7 @@ def add_evt_column_header(header, data):
     header['TCDLT{0}'.format(indx)] = -PIXSIZE[instr]  # - because RA increases to left
     header['TCRPX{0}'.format(indx)] = odet[0]
     indy = colnamesup.index('Y') + 1
-    header['TCTYP{0}'.format(indy)] = 'DEC---TAN'
+    header['TCTYP{0}'.format(indy)] = 'DEC--TAN'
     header['TCRVL{0}'.format(indy)] = header['DEC_PNT']
     header['TCDLT{0}'.format(indy)] = PIXSIZE[instr]
     header['TCRPX{0}'.format(indy)] = odet[1]
-- 
2.43.0


From d05d29bf2c089f8fb65344d021e9133fcd009c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:20 +0000
Subject: [PATCH 44/57] fix: LissajousDither ignored reference_transform for
 directions but not for polarization

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 2579383..331e0b1 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -130,7 +130,7 @@ class LissajousDither(FixedPointing):
 
             photons_dir[i, :3] = np.dot(mat3d.T, photons_dir[i, :3])
 
-        return photons_dir
+        return np.einsum('...ij,...j->...i', self.reference_transform, photons_dir)
 
     def write_asol(self, photons, asolfile, timestep=0.256):
         '''Write an aspect solution (asol) file
-- 
2.43.0


From 88cb930511ab3571f58b1e769e9b5cdd1d70babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:09 +0000
Subject: [PATCH 45/57] fix: chirped Lynx configuration did not chirp any
 grating (looked for the wrong class)

---
 marxs/missions/lynx/lynx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 7140b40..020fdc1 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -25,9 +25,10 @@ from marxs import optics, simulator, design, analysis
 from marxs.design.rowland import (design_tilted_torus, RowlandTorus,
                                   CircularMeshGrid)
 from marxs.math.geometry import Cylinder
-from marxs.optics import FlatDetector, CATGrating
+from marxs.optics import FlatDetector
 from marxs.simulator import Propagator
-from marxs.missions.mitsnl.catgrating import CATL1L2Stack, catsupportbars, l1_order_selector
+from marxs.missions.mitsnl.catgrating import (CATL1L2Stack, NonParallelCATGrating,
+                                              catsupportbars, l1_order_selector)
 from marxs.design import tolerancing as tol
 from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
 
@@ -198,7 +199,7 @@ class PerfectLynx(simulator.Sequence):
                                           postprocess_steps=self.post_process(),
                                           **kwargs)
         if ('chirp_energy' in conf) and ('chirp_order' in conf):
-            gratings = self.elements_of_class(CATGrating, subclass_ok=False)
+            gratings = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
             opt = NumericalChirpFinder(detcirc,
                                        order=conf['chirp_order'],
                                        energy=conf['chirp_energy'],
-- 
2.43.0


From 88fe5a698ccfc5828ebd4d955ca98366838d3449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:09 +0000
Subject: [PATCH 46/57] fix: Lynx could not be constructed for conf_5050 and
 conf_chirp (no alignment budget)

---
 marxs/missions/lynx/lynx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 020fdc1..c92af6b 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -275,4 +275,5 @@ align_requirement_in = [
 align_requirement = copy.deepcopy(align_requirement_in)
 reformat_errorbudget(align_requirement)
 
-conf['alignmentbudget'] = align_requirement
+for c in [conf, conf_5050, conf_chirp]:
+    c['alignmentbudget'] = align_requirement
-- 
2.43.0


From 00a3e175f4ed6b5a6c89f9866f536afa52bb329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:09 +0000
Subject: [PATCH 47/57] fix: circular detector of Arcus ignored the Rowland
 torus of the configuration passed in

---
 marxs/missions/arcus/arcus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/arcus/arcus.py b/marxs/missions/arcus/arcus.py
index d903aa0..ffd87eb 100644
--- a/marxs/missions/arcus/arcus.py
+++ b/marxs/missions/arcus/arcus.py
@@ -434,10 +434,10 @@ class PerfectArcus(Sequence):
         # rotate such that phi=0 is at the bottom
         rot = transforms3d.axangles.axangle2mat(np.array([0, 1, 0]), np.pi)
         circdet = CircularDetector(orientation=xyz2zxy[:3, :3] @ rot,
-                                   zoom=[defaultconf['rowland_detector'].r,
-                                         defaultconf['rowland_detector'].r,
+                                   zoom=[conf['rowland_detector'].r,
+                                         conf['rowland_detector'].r,
                                          20],
-                                   position=[0, 0, np.sqrt(defaultconf['rowland_detector'].r**2 - conf['d']**2)],
+                                   position=[0, 0, np.sqrt(conf['rowland_detector'].r**2 - conf['d']**2)],
                                    )
         circdet.display['opacity'] = 0.1
         circdet.detpix_name = ['circpix_x', 'circpix_y']
-- 
2.43.0


From 8d7cc3be01ed796c860bf3e088da21bb6da422c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:09 +0000
Subject: [PATCH 48/57] fix: mkarf checked channels against the default instead
 of the configuration passed in

---
 marxs/missions/arcus/arfrmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/arfrmf.py b/marxs/missions/arcus/arfrmf.py
index de04cb4..8d67351 100644
--- a/marxs/missions/arcus/arfrmf.py
+++ b/marxs/missions/arcus/arfrmf.py
@@ -203,7 +203,7 @@ def mkarf(channel_edges, order,
     specresp_sim = mirr_grat(en_mid, order)
     all_onccd = np.zeros(len(specresp_filtqe))
     for chan in channels:
-        if chan not in defaultconf['pos_opt_ax'].keys():
+        if chan not in conf['pos_opt_ax'].keys():
             raise ValueError(f'channel {chan} not defined in Arcus')
         specresp_onccd = onccd(en_mid, order, chan)
         all_onccd += specresp_onccd
-- 
2.43.0


From c27cbf892848a7ff1ae49038f8dfe8f42ac42ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:09 +0000
Subject: [PATCH 49/57] fix: tg_resolve_events_circdet took the zero order
 position from the default configuration

---
 marxs/missions/arcus/analyze_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/analyze_grid.py b/marxs/missions/arcus/analyze_grid.py
index 1ee3a18..9e65153 100644
--- a/marxs/missions/arcus/analyze_grid.py
+++ b/marxs/missions/arcus/analyze_grid.py
@@ -213,7 +213,7 @@ def tg_resolve_events_circdet(evt, defaultconf):
     # effective_grating_period = np.mean(facets['period']) * facets['period'].unit
 
 
-    ang_r0 = zeropos('circ_phi', evt.meta['CHANNEL']) * u.rad
+    ang_r0 = zeropos('circ_phi', evt.meta['CHANNEL'], defaultconf) * u.rad
     evt['tg_r'] = (-(ang_r0 - evt['circ_phi']) / 2).to(u.degree)
     l = 2 * defaultconf['rowland_central'].r * u.mm * np.cos(ang_r0 - evt['circ_phi'])
     dy = defaultconf['pos_opt_ax'][evt.meta['CHANNEL']][1] * u.mm - evt['circ_y']
-- 
2.43.0


From 3e6c1027a88a50bfb1e96aee0caa2b223ab4ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 50/57] fix: output columns that are defined by a dictionary
 lost their initial value and were added twice

---
 marxs/base/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index f916b0b..d38086f 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -269,9 +269,11 @@ class SimulationSequenceElement(MarxsElement):
             be used to set the column names, see description above.
         '''
         for n in self.output_columns + colnames:
-            if (n is not None) and (n not in photons.colnames):
-                if not isinstance(n, dict):
-                    n = {'name': n, 'value': np.nan}
+            if n is None:
+                continue
+            # copy, so that the definition of the column is not changed
+            n = dict(n) if isinstance(n, dict) else {'name': n, 'value': np.nan}
+            if n['name'] not in photons.colnames:
                 val = n.pop('value', None)
                 newcol = Column(length=len(photons), **n)
                 if val is not None:
-- 
2.43.0


From 0416bdc09c8b818feae6e45eae5d53c3d7edc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:55 +0000
Subject: [PATCH 51/57] fix: CCDRedistNormal added a column to the table of the
 caller

---
 marxs/optics/detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 6cd012a..9940d93 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -161,6 +161,8 @@ class CCDRedistNormal(FlatOpticalElement):
     def __init__(self, **kwargs):
         self.tab_width = kwargs.pop("tab_width")
         if 'sigma' not in self.tab_width.colnames:
+            # do not change the table of the caller
+            self.tab_width = self.tab_width.copy()
             self.tab_width['sigma'] = self.tab_width['FWHM'] / self.fwhm2sig
         super().__init__(**kwargs)
 
-- 
2.43.0


From a0ac292c88b4250e6f491270f554511dc5d44403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:33 +0000
Subject: [PATCH 52/57] fix: chip array of Athena passed the torus by position
 to a keyword-only constructor

---
 marxs/missions/athena/athecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/athena/athecat.py b/marxs/missions/athena/athecat.py
index 248148a..17bb638 100644
--- a/marxs/missions/athena/athecat.py
+++ b/marxs/missions/athena/athecat.py
@@ -151,7 +151,7 @@ class GAS(design.rowland.CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super().__init__(conf['rowland'], **conf['det_kwargs'],
+        super().__init__(rowland=conf['rowland'], **conf['det_kwargs'],
                          guess_distance=25.)
 
 
-- 
2.43.0


From 018530e2d9d8a3853d1c00094c1343beb7f60165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:58 +0000
Subject: [PATCH 53/57] fix: outer_shape of apertures called a method that does
 not exist

---
 marxs/optics/aperture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/optics/aperture.py b/marxs/optics/aperture.py
index ec81690..9d3e77f 100644
--- a/marxs/optics/aperture.py
+++ b/marxs/optics/aperture.py
@@ -5,7 +5,7 @@ import astropy.units as u
 
 from .base import FlatOpticalElement
 from ..base import GeometryError
-from ..math.geometry import RectangleHole, CircularHole
+from ..math.geometry import RectangleHole, CircularHole, xyz_square
 from ..simulator import BaseContainer
 
 
@@ -79,7 +79,7 @@ class FlatAperture(BaseAperture, FlatOpticalElement):
 
     def outer_shape(self):
         '''Return values in Eukledian space.'''
-        return self.xyz_square(self.display.get('outer_factor', 3))
+        return xyz_square(self.geometry, self.display.get('outer_factor', 3))
 
 
 class RectangleAperture(FlatAperture):
-- 
2.43.0


From 3e9a72ac3e6082e8578e4522dc479235ac74b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:07 +0000
Subject: [PATCH 54/57] fix: load_and_plot keeps the background color that the
 caller asks for

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index dbbae22..98ac3d5 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -681,7 +681,7 @@ class WigglePlotter():
 
         tab = Table.read(filename)
 
-        if 'axis_facecolor' not in kwargs:
+        if 'axes_facecolor' not in kwargs:
             for n, c in self.bg_colors.items():
                 if n in filename:
                     kwargs['axes_facecolor'] = c
-- 
2.43.0


From b047fc281b01cb413e24da36255038333e879003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:25 +0000
Subject: [PATCH 55/57] fix: offset channels of a double Rowland design start
 from the torus of their own side for any channel number

---
 marxs/design/rowland.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index f0b88ac..945b73e 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -530,10 +530,7 @@ def add_offset_double_rowland_channels(geometry,
     for channel in geometry['pos_opt_ax']:
         shift_matrix = np.eye(4)
         shift_matrix[:, 3] = geometry['pos_opt_ax'][channel][:]
-        if channel in ['1', '2']:
-            base_rowland = 'rowland_central'
-        elif channel in ['1m', '2m']:
-            base_rowland = 'rowland_central_m'
+        base_rowland = 'rowland_central_m' if 'm' in channel else 'rowland_central'
         namer = 'rowland_' + channel
         geometry[namer] = RowlandTorus(geometry[base_rowland].R,
                                        geometry[base_rowland].r,
-- 
2.43.0


From fe35c527f332000013dcdb75841ee3cf94d681db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:47 +0000
Subject: [PATCH 56/57] fix: SymbolFSource with coordinates that are not ICRS
 was placed at the wrong position

---
 marxs/source/basesources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 492c04c..b042367 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -520,6 +520,6 @@ class SymbolFSource(AstroSource):
         ra[elem == 2] += 0.8 * size
         dec[elem == 2] += 0.3 * size * np.random.random(np.sum(elem == 2))
 
-        self.set_pos(photons, SkyCoord(ra, dec, frame=self.coords))
+        self.set_pos(photons, SkyCoord(ra, dec, frame='icrs'))
 
         return photons
-- 
2.43.0


From d137d2a691efb774549b9cbd78a52042200d7ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:25 +0000
Subject: [PATCH 57/57] fix: LabPointSourceCone with direction along z gave NaN
 directions

---
 marxs/source/labSource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 42c5d46..3a2b51a 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -119,6 +119,9 @@ class LabPointSourceCone(Source):
         # Now we rotate dir to align with the given direction: self.dir
         # To find axis of rotation: cross self.dir with z
         axis = np.cross(h2e(self.dir), [0, 0, 1])
+        if np.all(axis == 0):
+            # self.dir is parallel to z, any axis perpendicular to z will do
+            axis = np.array([1., 0., 0.])
 
         angle = np.arccos(self.dir[2]) # Simplified
 
-- 
2.43.0

