From 25e43d8411bf90dc011ea1358d760bf1800a2003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 01/73] fix: printing an Ellipse raises NameError

---
 legume/phc/shapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index aeb1b56..d32ef75 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -141,7 +141,9 @@ class Ellipse(Shape):
         super().__init__(eps=eps)
 
     def __repr__(self):
-        return f"Ellipse(eps = {eps:.2f}, x = {x:.4f}, y = {y:.4f}, rx = {rx:.4f},ry = {ry:.4f}, phi = {phi:.4f}, )"
+        return "Ellipse(eps = %.2f, x = %.4f, y = %.4f, rx = %.4f, " \
+               "ry = %.4f, phi = %.4f)" % (self.eps, self.x_cent, \
+               self.y_cent, self.rx, self.ry, self.phi)
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
-- 
2.43.0


From 07a4c87ee515efd24a7c0f0dd8a8ecada0dd7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 02/73] fix: a rotated Ellipse is centred at (x_cent, y_cent)

---
 legume/phc/shapes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index d32ef75..a8c284f 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -156,16 +156,17 @@ class Ellipse(Shape):
             np.abs(np.square(g1y * self.ry)))
         gabs += 1e-10  # To avoid numerical instability at zero
 
-        ft = bd.exp(-1j*g1x*self.x_cent - 1j*g1y*self.y_cent)*self.rx*self.ry* \
+        # The phase is set by the center, which is not affected by the rotation
+        ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
 
         return ft
 
     def is_inside(self, x, y):
-        x1 = x * bd.cos(self.phi) + y * bd.sin(self.phi)
-        y1 = -x * bd.sin(self.phi) + y * bd.cos(self.phi)
-        return (np.square((x1 - self.x_cent) / self.rx) + np.square(
-            (y1 - self.y_cent) / self.ry) <= 1)
+        (xc, yc) = (x - self.x_cent, y - self.y_cent)
+        x1 = xc * bd.cos(self.phi) + yc * bd.sin(self.phi)
+        y1 = -xc * bd.sin(self.phi) + yc * bd.cos(self.phi)
+        return (np.square(x1 / self.rx) + np.square(y1 / self.ry) <= 1)
 
 
 class Poly(Shape):
-- 
2.43.0


From 0e6832aaca1bdb8b5d0441a3feab1f528308ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 03/73] fix: a rejected list of shapes must not be partly added

---
 legume/phc/layer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index af8843f..a9ab1d6 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -123,20 +123,23 @@ class ShapesLayer(Layer):
         """
         if isinstance(shapes, Shape):
             shapes = [shapes]
+        shapes = list(shapes)
 
+        # Check everything first so that a rejected list leaves no trace
         for shape in shapes:
-            if isinstance(shape, Shape):
-                self.shapes.append(shape)
-                # We squeeze to have a zero-dimensional array, which is consistent
-                # with eps_avg in layers without shapes
-                self.eps_avg = (self.eps_avg + (shape.eps - self.eps_b) * \
-                                shape.area/self.lattice.ec_area).squeeze()
-            else:
+            if not isinstance(shape, Shape):
                 raise ValueError(
                     "Argument to add_shape must only contain "
                     "instances of legume.Shape (e.g legume.Circle or legume.Poly)"
                 )
 
+        for shape in shapes:
+            self.shapes.append(shape)
+            # We squeeze to have a zero-dimensional array, which is consistent
+            # with eps_avg in layers without shapes
+            self.eps_avg = (self.eps_avg + (shape.eps - self.eps_b) * \
+                            shape.area/self.lattice.ec_area).squeeze()
+
     def compute_ft(self, gvec):
         """
         Compute the 2D Fourier transform of the layer permittivity.
-- 
2.43.0


From f3023121a359ab65369d5405e6bce5c36d8724fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 04/73] fix: real-space permittivity misses shape images on
 skew lattices

---
 legume/phc/layer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index a9ab1d6..a2f013d 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -195,15 +195,18 @@ class ShapesLayer(Layer):
         a1 = self.lattice.a1
         a2 = self.lattice.a2
 
-        a_p = min([np.linalg.norm(a1), np.linalg.norm(a2)])
-        nmax = np.int_(
-            np.sqrt(
-                np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-            / a_p) + 1
+        # Largest lattice indexes that can bring a point back to a shape, given
+        # that r.b/(2 pi) is the lattice coordinate of r. This also holds for
+        # primitive vectors which are far from perpendicular.
+        rmax = np.sqrt(
+            np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
+        rmax = rmax + max([np.linalg.norm(a1), np.linalg.norm(a2)])
+        nmax1 = np.int_(rmax * np.linalg.norm(self.lattice.b1) / 2 / np.pi)
+        nmax2 = np.int_(rmax * np.linalg.norm(self.lattice.b2) / 2 / np.pi)
 
         for shape in self.shapes:
-            for n1 in range(-nmax, nmax + 1):
-                for n2 in range(-nmax, nmax + 1):
+            for n1 in range(-nmax1, nmax1 + 1):
+                for n2 in range(-nmax2, nmax2 + 1):
                     in_shape = shape.is_inside(xmesh + n1 * a1[0] + n2 * a2[0],
                                                ymesh + n1 * a1[1] + n2 * a2[1])
                     eps_r[in_shape] = utils.get_value(shape.eps)
-- 
2.43.0


From 58aabc679241596fd2d1fc721fd2be4ca90f9b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 05/73] fix: xy_grid with a single number of periods or
 negative primitive vectors

---
 legume/phc/lattice.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 27ef912..adda2be 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -90,18 +90,18 @@ class Lattice(object):
         np.ndarray
             Two arrays defining a linear grid in `x` and `y`.
         """
-        if periods == None:
+        if periods is None:
             if self.type == 'square' or self.type == 'rectangular':
                 periods = [1, 1]
             else:
                 periods = [2, 2]
-        elif np.array(periods).shape == 1:
-            periods = periods[0] * np.ones((2, ))
+        elif np.array(periods).size == 1:
+            periods = np.array(periods) * np.ones((2, ))
 
-        ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
+        ymax = max(np.abs([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
 
-        xmax = np.abs(max([self.a1[0], self.a2[0]])) * periods[0] / 2
+        xmax = max(np.abs([self.a1[0], self.a2[0]])) * periods[0] / 2
         xmin = -xmax
 
         return (np.linspace(xmin, xmax, Nx), np.linspace(ymin, ymax, Ny))
-- 
2.43.0


From 15a939f04853d5bc057b52e53f140c92d873862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 06/73] fix: bz_path with a single integer number of steps

---
 legume/phc/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index adda2be..057ddb6 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -132,6 +132,7 @@ class Lattice(object):
             A dictionary with the 'kpoints', 'labels',
             'indexes', 'k_indexes', and the 'angles' corresponding to the labels.      
         """
+        if np.ndim(ns) == 0: ns = [ns]
         if not isinstance(ns, list): ns = list(ns)
         npts = len(pts)
         if npts < 2:
-- 
2.43.0


From cf3cdda53bd02b95206f33df7d03144ccdcf0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 07/73] fix: circular truncation misses reciprocal vectors of
 very skew lattices

---
 legume/gme/gme.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ef2ea8d..d8beaf7 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -212,10 +212,10 @@ class GuidedModeExp(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
-        n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
-        n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+        # Since G.a1 = 2*pi*n1, all vectors in the circle have |n1| <= gmax*|a1|
+        # (the extra one accounts for rounding), and the same for n2
+        n1max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
+        n2max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
-- 
2.43.0


From 01b7c05abf09622d78cae18107a15affedaa750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 08/73] fix: guided_modes misses modes when wavevectors are not
 in ascending order

---
 legume/gme/slab_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 0a2afc0..da5e8af 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -65,7 +65,7 @@ def guided_modes(g_array: np.ndarray,
                 om_ub = min(
                     om_ub,
                     get_value(omegas[-1]) + step +
-                    (g_array[ig] - g_array[ig - 1]))
+                    max(g_array[ig] - g_array[ig - 1], 0))
             """
             Check if the guided mode needs to be computed at all; when using the
             gmode_compute = 'exact' option, there might be identical g-points
-- 
2.43.0


From bb346799b4244762c489c15b778823c9d8b770bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 09/73] fix: spurious coupling from rounding residue of guided
 modes in a patterned upper cladding

---
 legume/gme/slab_modes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index da5e8af..51475ca 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -147,6 +147,11 @@ def guided_mode_given_g(g,
         if pol.lower() == 'te' or pol.lower() == 'tm':
             # Compute A-B coefficients
             AB = AB_matrices(omega, g, eps_array, d_array, chi_array, pol)
+            # At D22 = 0 there is no growing component in the upper cladding
+            # (a rounding residual would blow up in the z-integrals)
+            no_growth = np.ones((eps_val.size, 2, 1))
+            no_growth[-1, 1] = 0
+            AB = AB * no_growth
             # Normalize
             norm = normalization_coeff(omega, g, eps_array, d_array, chi_array,
                                        AB, pol)
-- 
2.43.0


From b96df948df933e7c82c4300ca6dbbbae50ce8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 10/73] fix: permittivity matrix of the 'abs' truncation was
 that of the inverted structure

---
 legume/gme/gme.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index d8beaf7..1d18e60 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -447,19 +447,19 @@ class GuidedModeExp(object):
 
         # x and y components of delta_G = G1-G2,
         #the dimension of ggrdix and ggrdiy is [Ng^2]
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
 
         # The dimension of G1 is [2,Ng^2]
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         # This is the bottleneck in terms of timing, we should find
-- 
2.43.0


From 82db75eb2203f4ae42416524b62b39b3b6f44ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 11/73] fix: 'abs' truncation with a single reciprocal vector
 raised IndexError

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 1d18e60..bf7c4c8 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -472,7 +472,7 @@ class GuidedModeExp(object):
         the original array. We use squeeze() to remove the dimension of length 1 in case
         of numpy =>1.
         """
-        ind_unique = ind_unique.squeeze()
+        ind_unique = ind_unique.ravel()
         num_unique = np.shape(unique)[1]
 
         # Unique g-vectors for calculting f-transform
-- 
2.43.0


From 94f1e4b30ffae327578c842ce0da06bc85e6f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 12/73] fix: run_im before run must ask for run first

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index bf7c4c8..5aa7a58 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1194,10 +1194,10 @@ class GuidedModeExp(object):
         rad_coup = {'l_te': [], 'l_tm': [], 'u_te': [], 'u_tm': []}
         rad_gvec = {'l': [], 'u': []}
 
-        minds = np.arange(0, self.numeig)
-
         if len(self.freqs) == 0:
             raise RuntimeError("Run the GME computation first!")
+
+        minds = np.arange(0, self.numeig)
         num_k = np.shape(self.freqs)[0]
         for kind in range(len(self.freqs)):
             prbd.update_prog(kind, num_k, self.verbose,
-- 
2.43.0


From 4c4bd7e0d77ddf5be81aaff78ecc3e624e1dd370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 13/73] fix: radiation channels must use the same effective
 cladding permittivity as the modes

---
 legume/gme/gme.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 5aa7a58..83be691 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1649,10 +1649,10 @@ class GuidedModeExp(object):
             omr = 2 * np.pi * freqs[kind, im]
             evec = eigvecs[kind][:, im]
             # Reciprocal vedctors within the radiative cone for the claddings
-            indmoder = [bd.argwhere(gk**2 <= \
-                    self.phc.claddings[0].eps_avg*omr**2).ravel(),
-                        bd.argwhere(gk**2 <= \
-                    self.phc.claddings[1].eps_avg*omr**2).ravel()
+            # (effective permittivities, as in the guided and radiative modes)
+            eps_clad = [self.eps_array[0], self.eps_array[-1]]
+            indmoder = [bd.argwhere(gk**2 <= eps_clad[0]*omr**2).ravel(),
+                        bd.argwhere(gk**2 <= eps_clad[1]*omr**2).ravel()
                         ]
             gkr = [gk[indmode] for indmode in indmoder]
 
@@ -1744,8 +1744,7 @@ class GuidedModeExp(object):
                 count += self.modes_numg[kind][im1]
 
             # Density of states of leaky modes
-            rad_dos = [self.phc.claddings[i].eps_avg/bd.sqrt(
-                    self.phc.claddings[i].eps_avg*omr**2 - gkr[i]**2) / \
+            rad_dos = [eps_clad[i]/bd.sqrt(eps_clad[i]*omr**2 - gkr[i]**2) / \
                     4 / np.pi for i in [0, 1]]
 
             # Store the reciprocal lattice vectors corresponding to the
-- 
2.43.0


From 262170f15e5e767ca07e1395334f894671604c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 14/73] fix: D and E fields of the plane-wave expansion lacked
 the |k+G| factor of the curl

---
 legume/pwe/pwe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index ec9cf5a..8ecc484 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -291,15 +291,16 @@ class PlaneWaveExp(object):
             return (Hx_ft, Hy_ft, Hz_ft)
 
         elif field.lower() == 'd' or field.lower() == 'e':
+            # D = -i/omega curl(H), with the same convention as in the GME
             if self.pol == 'te':
-                Dx_ft = 1j / omega * evec * qx
-                Dy_ft = 1j / omega * evec * qy
+                Dx_ft = 1 / omega * gnorm * evec * qx
+                Dy_ft = 1 / omega * gnorm * evec * qy
                 Dz_ft = bd.zeros(gnorm.shape)
 
             elif self.pol == 'tm':
                 Dx_ft = bd.zeros(gnorm.shape)
                 Dy_ft = bd.zeros(gnorm.shape)
-                Dz_ft = 1j / omega * evec
+                Dz_ft = -1 / omega * gnorm * evec
 
             if field.lower() == 'd':
                 return (Dx_ft, Dy_ft, Dz_ft)
-- 
2.43.0


From a957b7bf5b839c68db0c80a0d5b71c3af1733dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 15/73] fix: properties of PlaneWaveExp before run raised
 AttributeError

---
 legume/pwe/pwe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 8ecc484..fec4d03 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -31,6 +31,11 @@ class PlaneWaveExp(object):
 
         self.eps_eff = eps_eff
 
+        # Initialize all the attributes defined as properties below
+        self._freqs = None
+        self._eigvecs = None
+        self._kpoints = None
+
         # Initialize the reciprocal lattice vectors and compute the eps FT
         self._init_reciprocal()
         self._compute_ft()
-- 
2.43.0


From 87c5f60a92db1fc23da087a55228c66c1bbe8e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 16/73] fix: the eps_eff argument of PlaneWaveExp was ignored

---
 legume/pwe/pwe.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index fec4d03..dda642b 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -114,6 +114,22 @@ class PlaneWaveExp(object):
         self.n1g = 2 * n1max + 1
         self.n2g = 2 * n2max + 1
 
+    def _layer_ft(self, gvec):
+        """
+        FT of the layer permittivity with 'eps_eff' as the background
+        """
+        ft = self.layer.compute_ft(gvec)
+        deps = self.eps_eff - self.layer.eps_b
+        if deps == 0:
+            return ft
+
+        # FT of a function that is one outside of all the shapes
+        outside = 1. * (bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10)
+        for shape in self.layer.shapes:
+            outside = outside - shape.compute_ft(
+                gvec) / self.layer.lattice.ec_area
+        return ft + deps * outside
+
     def _compute_ft(self):
         """
         Compute the unique FT coefficients of the permittivity, eps(g-g')
@@ -127,8 +143,8 @@ class PlaneWaveExp(object):
                             self.gvec[:, range(n2max)]
 
         # Compute and store T1 and T2
-        self.T1 = self.layer.compute_ft(G1)
-        self.T2 = self.layer.compute_ft(G2)
+        self.T1 = self._layer_ft(G1)
+        self.T2 = self._layer_ft(G2)
 
         # Store the g-vectors to which T1 and T2 correspond
         self.G1 = G1
-- 
2.43.0


From 1503f708b751c803988e644d926032412d184983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 17/73] fix: kz_symmetry='both' labelled modes wrongly when
 parities have different sizes

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 83be691..247a778 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1062,7 +1062,7 @@ class GuidedModeExp(object):
                     symm1 = bd.concatenate((np.full(self.even_counts[ik],
                                                     1,
                                                     dtype=int),
-                                            np.full(self.even_counts[ik],
+                                            np.full(self.odd_counts[ik],
                                                     -1,
                                                     dtype=int)))
                     freq1 = bd.concatenate((freq1_even, freq1_odd))
-- 
2.43.0


From 745d349682b31e19a5ee98523ff078dee8f155b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 18/73] fix: symmetry separation must iterate over the guided
 modes actually included

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 247a778..a5bd21f 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1260,7 +1260,7 @@ class GuidedModeExp(object):
         blocks = []  #
         blocks_w = []  #eigenvectors
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
 
             #Block of symmetry operator corresponding to (k,ind_alpha)
@@ -1398,7 +1398,7 @@ class GuidedModeExp(object):
         #dim_final = np.shape(mat)[0]
         dim_final = 0
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
             # These are for creating sparse matrix
             # check_g to avoid double counting on reflected g
-- 
2.43.0


From 75d9f94a8945a17a8dc516e720ef1689215f9189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 19/73] fix: symmetry separation of a second run used the basis
 of the first one

---
 legume/gme/gme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index a5bd21f..c406132 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -875,6 +875,7 @@ class GuidedModeExp(object):
         self._kpoints = kpoints
 
         self.modes_numg = []
+        self.ind_modes = []
         self.N_basis = []
         self.gmode_include = []
 
-- 
2.43.0


From ef1a43aa0099f69933d60e256788e9bf1edee40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 20/73] fix: properties of ExcitonSchroedEq before run raised
 AttributeError

---
 legume/exc/exc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 9530376..68139be 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -76,6 +76,11 @@ class ExcitonSchroedEq(object):
         self.osc_str = osc_str
         self.truncate_g = truncate_g
 
+        # Results, filled in by run()
+        self._eners = None
+        self._eigvecs = None
+        self._kpoints = None
+
         if osc_str is not None:
             if type(self.osc_str) == list:
                 self.osc_str = np.asarray(self.osc_str)
-- 
2.43.0


From e2699af84394c94ad5e10884203545a5a6ea6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 21/73] fix: exciton plane waves missed reciprocal vectors of
 very skew lattices

---
 legume/exc/exc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 68139be..6d039d7 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -177,10 +177,10 @@ class ExcitonSchroedEq(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
-        n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
-        n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+        # Since G.a1 = 2*pi*n1, all vectors in the circle have |n1| <= gmax*|a1|
+        # (the extra one accounts for rounding), and the same for n2
+        n1max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
+        n2max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
-- 
2.43.0


From 2d4ad346178905875db2a2467b77a322c6d97a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 22/73] fix: exciton potential of the 'abs' truncation was that
 of the inverted structure

---
 legume/exc/exc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 6d039d7..5032f4b 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -247,10 +247,10 @@ class ExcitonSchroedEq(object):
          assuming abs-initialized reciprocal lattice
         """
 
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
         """
         Old code calculating all redundant delta_g = Gi-Gj
         pot_ft = self.layer.compute_exc_ft(np.vstack((ggridx, ggridy)),
@@ -261,10 +261,10 @@ class ExcitonSchroedEq(object):
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                  self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                  self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         indgrid = bd.array([indgridx, indgridy])
-- 
2.43.0


From 9da0305c61cf1e8103dc5a5838cd49c67de71c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 23/73] fix: exciton potential of a layer with several shapes
 was normalised once per shape

---
 legume/phc/layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index a2f013d..45e30d0 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -169,13 +169,13 @@ class ShapesLayer(Layer):
             # inside the shape and zero outside
             FT = FT + Vmax * shape.compute_ft(gvec)
 
-            FT = FT / self.lattice.ec_area
-            # If the potential is negative we must shift all energies
+        FT = FT / self.lattice.ec_area
 
-            ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
-            # If the first element corresponding to V(0) is negative we shift the energies by Vmax
-            if FT[ind0][0] < 0:
-                FT[ind0] += bd.abs(Vmax)
+        # If the potential is negative we must shift all energies
+        ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
+        # If the element corresponding to V(0) is negative we shift the energies by Vmax
+        if bd.real(FT[ind0][0]) < 0:
+            FT[ind0] += bd.abs(Vmax)
         ### k near zero could be explicitly set to the potential average value, to be done!
 
         return FT
-- 
2.43.0


From 7308a560448d5a2d7186f91884324fba48b67fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 24/73] fix: get_pot_xy failed with the 'tbt' truncation

---
 legume/exc/exc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 5032f4b..3e35fb4 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -417,8 +417,7 @@ class ExcitonSchroedEq(object):
             ft_coeffs = bd.hstack(
                 (self.T1, self.T2, bd.conj(self.T1), bd.conj(self.T2)))
             gvec = bd.hstack((self.G1, self.G2, -self.G1, -self.G2))
-            #ft_coeffs[0] sincewe have only one layer
-            pot_r = ftinv(ft_coeffs[0], gvec, xgrid, ygrid)
+            pot_r = ftinv(ft_coeffs, gvec, xgrid, ygrid)
         elif self.truncate_g == "abs":
             ft_coeffs = self.T1_unique
             gvec = self.G1_unique
-- 
2.43.0


From 616bb76198d736eb9d975f2f855d54e36d6d1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 25/73] fix: properties of HopfieldPol before run raised
 AttributeError

---
 legume/pol/pol.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 9ef059f..4ed592e 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -60,6 +60,15 @@ class HopfieldPol(object):
                              " HopfieldPol should have the same lattice"
                              " constant a.")
 
+        # Results, filled in by run()
+        self._eners = None
+        self._eners_im = None
+        self._eigvecs = None
+        self._fractions_ex = None
+        self._fractions_ph = None
+        self._kpoints = None
+        self._gvec = self.gme.gvec
+
     def __repr__(self):
         rep = 'HopfieldPol(\n'
         rep += 'phc = PhotCryst object' + ', \n'
-- 
2.43.0


From a2006584964bee6b13cd9d177dc00368ac9d1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 26/73] fix: HopfieldPol.run modified the option dictionaries
 of the caller

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 4ed592e..27e883c 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -297,8 +297,8 @@ class HopfieldPol(object):
         self._gvec = self.gme.gvec
 
         #Force the same kpoints for gme and exc solvers
-        gme_options['kpoints'] = self.kpoints
-        exc_options['kpoints'] = self.kpoints
+        gme_options = dict(gme_options, kpoints=self.kpoints)
+        exc_options = dict(exc_options, kpoints=self.kpoints)
 
         #Run gme
         self.gme.run(**gme_options)
-- 
2.43.0


From ea0a5247c119ffc6215acb315ace9a7b1f82a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 27/73] fix: photon-exciton coupling depended on the area of
 the unit cell

---
 legume/pol/pol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 27e883c..2f79a46 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -179,6 +179,8 @@ class HopfieldPol(object):
         pref = -1j * bd.sqrt(cs.hbar**2 * cs.e**2 /
                              (4 * cs.m_e * cs.epsilon_0)) / cs.e / bd.sqrt(
                                  self.a)
+        # Both the fields and the wavefunctions are normalised over the cell
+        pref = pref * bd.sqrt(self.gme.phc.lattice.ec_area)
         C = bd.zeros((self.N_max, self.M_max), dtype="complex")
         #n: loop over photonic modes, nu: loop over excitonic modes
         for n in range(self.N_max):
-- 
2.43.0


From 1672cf3d6a235a1783bda7267feccafa12ba6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 28/73] fix: off-diagonal Hopfield blocks contained the last
 quantum well only

---
 legume/pol/pol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 2f79a46..3e55d6f 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -240,11 +240,13 @@ class HopfieldPol(object):
         diag_phot = diag_phot + 2 * bd.real(D_final_block)
 
         row_0 = bd.hstack(
-            (diag_phot, -1j * C_final_block, -2 * D, -1j * C_final_block))
+            (diag_phot, -1j * C_final_block, -2 * D_final_block,
+             -1j * C_final_block))
         row_1 = bd.hstack((1j * C_dagger_final_block, diag_exc,
                            -1j * C_dagger_final_block, diag_exc * 0.))
         row_2 = bd.hstack(
-            (2 * D, -1j * C_final_block, -diag_phot, -1j * C_final_block))
+            (2 * D_final_block, -1j * C_final_block, -diag_phot,
+             -1j * C_final_block))
         row_3 = bd.hstack((-1j * C_dagger_final_block, diag_exc * 0.,
                            1j * C_dagger_final_block, -diag_exc))
         M = bd.vstack((row_0, row_1, row_2, row_3))
-- 
2.43.0


From b1cd13fc753e7e0d6ff5fe2aa81753bb36db1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 29/73] fix: diamagnetic term of the Hopfield matrix depended
 on the phases of the modes

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 3e55d6f..6e47cbe 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -196,7 +196,7 @@ class HopfieldPol(object):
         for n_1 in range(self.N_max):
             for n_2 in range(self.N_max):
                 D[n_1, n_2] = bd.sum(
-                    bd.conj(C[n_1, :]) * C[n_2, :] /
+                    C[n_1, :] * bd.conj(C[n_2, :]) /
                     bd.real(exc.eners[kind, :]))
 
         return C, D
@@ -237,7 +237,7 @@ class HopfieldPol(object):
 
         np.fill_diagonal(diag_exc, exc_el)
 
-        diag_phot = diag_phot + 2 * bd.real(D_final_block)
+        diag_phot = diag_phot + 2 * D_final_block
 
         row_0 = bd.hstack(
             (diag_phot, -1j * C_final_block, -2 * D_final_block,
-- 
2.43.0


From c418a4439571160186a8579b2468f3baeebdf746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 30/73] fix: HopfieldPol failed when numeig_ex exceeded the
 number of plane waves

---
 legume/pol/pol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 6e47cbe..613cc37 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -316,7 +316,8 @@ class HopfieldPol(object):
         t_start = time.time()
         #Retrieve number of photonic/excitonic eigenvalues
         self.N_max = self.gme.numeig
-        self.M_max = self.exc_list[0].numeig_ex
+        # There are at most as many excitonic states as plane waves
+        self.M_max = self.exc_list[0].eners.shape[1]
         num_k = kpoints.shape[1]  # Number of wavevectors
 
         for ik, k in enumerate(self.kpoints.T):
-- 
2.43.0


From 231193d7e035037b37c973480e2cc8b3b8f5e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 31/73] fix: static photonic modes at Gamma entered the
 Hopfield matrix as rounding noise or NaN

---
 legume/pol/pol.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 613cc37..1cfdc12 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -184,6 +184,10 @@ class HopfieldPol(object):
         C = bd.zeros((self.N_max, self.M_max), dtype="complex")
         #n: loop over photonic modes, nu: loop over excitonic modes
         for n in range(self.N_max):
+            # The electric field of a static mode (zero frequency at Gamma) is
+            # undefined numerically, and its coupling vanishes in the limit
+            if self.gme.freqs[kind, n] < 1e-6:
+                continue
             E_comp = self.gme.ft_field_xy("E", kind=kind, mind=n, z=exc.z)
             for nu in range(self.M_max):
                 W_comp = exc.ft_wavef_xy(kind=kind, mind=nu)
@@ -331,14 +335,10 @@ class HopfieldPol(object):
             # frequency mode at Gamma
             (ener2, evecs) = bd.eig(mat + bd.eye(mat.shape[0]))
             ener1 = ener2 - bd.ones(mat.shape[0])
-            #Filter positive energies
-            filt_pos = bd.real(ener1) >= 0
-            ener1 = ener1[filt_pos]
-            evecs = evecs[:, filt_pos]
             fractions_ex, fractions_ph = self._calculate_fraction(evecs)
-            i_sort = bd.argsort(ener1)[0:int(
-                self.numeig // 2 - 1
-            )]  # Keep only np.shape(mat)[0]//2-1 eigenvalues, corresponding to positive energies
+            # Keep only np.shape(mat)[0]//2-1 eigenvalues, corresponding to
+            # positive energies: eigenvalues come in pairs of opposite sign
+            i_sort = bd.argsort(ener1)[self.numeig // 2:self.numeig - 1]
 
             ener = bd.real(ener1[i_sort])
             ener_im = bd.imag(ener1[i_sort])
-- 
2.43.0


From de3ce206f51eec845d1d5433298834b596cb733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 32/73] fix: kz_symms before run raised AttributeError

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index c406132..c8ec90e 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -54,7 +54,7 @@ class GuidedModeExp(object):
         self.gmode_include = []
 
         # Initialize all the attributes defined as properties below
-        self._symm = []
+        self._kz_symms = []
         self._freqs = []
         self._freqs_im = []
         self._unbalance_sp = []
-- 
2.43.0


From c18e4efbf51d09ff981a10563b78e73bf23230a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 33/73] fix: losses of a previous run survived a run that does
 not compute them

---
 legume/gme/gme.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index c8ec90e..585c6c4 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -871,6 +871,15 @@ class GuidedModeExp(object):
 
         t_start = time.time()
 
+        # Forget the results of any previous run
+        self._freqs = []
+        self._freqs_im = []
+        self._unbalance_sp = []
+        self._eigvecs = []
+        self._kz_symms = []
+        self._rad_coup = {}
+        self._rad_gvec = {}
+
         # Bloch momenta over which band structure is simulated
         self._kpoints = kpoints
 
-- 
2.43.0


From 09494339a0144291aba0614c55dc3dab1d458ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 34/73] fix: changing only_gmodes between runs had no effect

---
 legume/gme/gme.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 585c6c4..4982b67 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -646,9 +646,9 @@ class GuidedModeExp(object):
         """
         Construct the inverse FT matrices for the permittivity in each layer
         """
-        try:
-            self.eps_inv_mat
-        except AttributeError:
+        # The matrices of a previous run can be reused if they are the same ones
+        if getattr(self, '_eps_inv_only_gmodes', None) != only_gmodes:
+            self._eps_inv_only_gmodes = only_gmodes
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
 
-- 
2.43.0


From f22edaf90d4c5bd6e2a5ab0bcce40e409cd6bbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 35/73] fix: a rejected polarization left the results of the
 previous run with new k-points

---
 legume/pwe/pwe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index dda642b..a5b539a 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -177,6 +177,9 @@ class PlaneWaveExp(object):
             Number of eigen-frequencies to be stored (starting from lowest).
         """
 
+        if str(pol).lower() not in ('te', 'tm'):
+            raise ValueError("Polarization should be 'TE' or 'TM'")
+
         self._kpoints = kpoints
         self.pol = pol.lower()
         # Change this if switching to a solver that allows for variable numeig
@@ -199,8 +202,6 @@ class PlaneWaveExp(object):
                         bd.square(k[1] + self.gvec[1, :]))
                 mat = bd.outer(Gk, Gk)
                 mat = mat * self.eps_inv_mat
-            else:
-                raise ValueError("Polarization should be 'TE' or 'TM'")
 
             # Diagonalize using numpy.linalg.eigh() for now; should maybe switch
             # to scipy.sparse.linalg.eigsh() in the future
-- 
2.43.0


From 62e46c22f772757308808d69dcd00132087eea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 36/73] fix: a rejected HopfieldPol.run left the energies of
 the previous run with new k-points

---
 legume/pol/pol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 1cfdc12..593af28 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -298,6 +298,9 @@ class HopfieldPol(object):
         eners = []
         eners_im = []
         self._kpoints = kpoints
+        # Forget the results of any previous run
+        self._eners = None
+        self._eners_im = None
         self._eigvecs = []
         self._fractions_ex = []
         self._fractions_ph = []
-- 
2.43.0


From 9ec114f45ef455cac4793dd7657c459bc57fc2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 37/73] fix: the gradient of an Ellipse w.r.t. its semi-axes
 and angle raises TypeError

---
 legume/phc/shapes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index a8c284f..0f5ee9a 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -151,10 +151,8 @@ class Ellipse(Shape):
         # Change of coordinates
         g1x = gx * bd.cos(self.phi) + gy * bd.sin(self.phi)
         g1y = -gx * bd.sin(self.phi) + gy * bd.cos(self.phi)
-        gabs = np.sqrt(
-            np.abs(np.square(g1x * self.rx)) +
-            np.abs(np.square(g1y * self.ry)))
-        gabs += 1e-10  # To avoid numerical instability at zero
+        gabs = bd.sqrt(bd.square(g1x * self.rx) + bd.square(g1y * self.ry))
+        gabs = gabs + 1e-10  # To avoid numerical instability at zero
 
         # The phase is set by the center, which is not affected by the rotation
         ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
-- 
2.43.0


From 7f9b2f6aa2c3877baed15f651b3d1ed5a0125602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 38/73] fix: the gradient of a polygon with an edge along the
 x-axis is numerically wrong

---
 legume/phc/shapes.py | 79 ++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 50 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 0f5ee9a..b2426a9 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -2,6 +2,7 @@ import numpy as np
 import matplotlib.path as mpltPath
 
 from legume.backend import backend as bd
+from legume.utils import get_value
 
 
 class Shape(object):
@@ -208,7 +209,8 @@ class Poly(Shape):
         The polygon is assumed to take a value of 1 inside and a value of 0 
         outside.
 
-        The Fourier transform calculation follows that of Lee, IEEE TAP (1984).
+        The Fourier transform calculation is a variant of that of Lee, 
+        IEEE TAP (1984).
 
         Parameters
         ----------
@@ -218,57 +220,34 @@ class Poly(Shape):
         (gx, gy) = self._parse_ft_gvec(gvec)
 
         (xj, yj) = self.x_edges, self.y_edges
-        npts = xj.shape[0]
-        ng = gx.shape[0]
-        # Note: the paper uses +1j*g*x convention for FT while we use
-        # -1j*g*x everywhere in legume
-        gx = -gx[:, bd.newaxis]
-        gy = -gy[:, bd.newaxis]
+        gx = gx[:, bd.newaxis]
+        gy = gy[:, bd.newaxis]
         xj = xj[bd.newaxis, :]
         yj = yj[bd.newaxis, :]
-
-        ft = bd.zeros((ng), dtype=bd.complex)
-
-        aj = (bd.roll(xj, -1, axis=1) - xj + 1e-10) / \
-                (bd.roll(yj, -1, axis=1) - yj + 1e-20)
-        bj = xj - aj * yj
-
-        # We first handle the Gx = 0 case
-        ind_gx0 = np.abs(gx[:, 0]) < 1e-10
-        ind_gx = ~ind_gx0
-        if np.sum(ind_gx0) > 0:
-            # And first the Gy = 0 case
-            ind_gy0 = np.abs(gy[:, 0]) < 1e-10
-            if np.sum(ind_gy0 * ind_gx0) > 0:
-                ft = ind_gx0*ind_gy0*bd.sum(xj * bd.roll(yj, -1, axis=1)-\
-                                yj * bd.roll(xj, -1, axis=1))/2
-                # Remove the Gx = 0, Gy = 0 component
-                ind_gx0[ind_gy0] = False
-
-            # Compute the remaining Gx = 0 components
-            a2j = 1 / aj
-            b2j = yj - a2j * xj
-            bgtemp = gy * b2j
-            agtemp1 = bd.dot(gx, xj) + bd.dot(gy, a2j * xj)
-            agtemp2 = bd.dot(gx, bd.roll(xj, -1, axis=1)) + \
-                    bd.dot(gy, a2j * bd.roll(xj, -1, axis=1))
-            denom = gy * (gx + bd.dot(gy, a2j))
-            ftemp = bd.sum(bd.exp(1j*bgtemp) * (bd.exp(1j*agtemp2) - \
-                    bd.exp(1j*agtemp1)) * \
-                    denom / (bd.square(denom) + 1e-50) , axis=1)
-            ft = bd.where(ind_gx0, ftemp, ft)
-
-        # Finally compute the general case for Gx != 0
-        if np.sum(ind_gx) > 0:
-            bgtemp = bd.dot(gx, bj)
-            agtemp1 = bd.dot(gy, yj) + bd.dot(gx, aj * yj)
-            agtemp2 = bd.dot(gy, bd.roll(yj, -1, axis=1)) + \
-                        bd.dot(gx, aj * bd.roll(yj, -1, axis=1))
-            denom = gx * (gy + bd.dot(gx, aj))
-            ftemp = -bd.sum(bd.exp(1j*bgtemp) * (bd.exp(1j * agtemp2) - \
-                    bd.exp(1j * agtemp1)) * \
-                    denom / (bd.square(denom) + 1e-50) , axis=1)
-            ft = bd.where(ind_gx, ftemp, ft)
+        (xn, yn) = bd.roll(xj, -1, axis=1), bd.roll(yj, -1, axis=1)
+
+        # At G = 0, the transform is the (signed) area of the polygon
+        ind_g0 = (np.abs(gx[:, 0]) < 1e-10) * (np.abs(gy[:, 0]) < 1e-10)
+        ft = ind_g0 * bd.sum(xj * yn - yj * xn) / 2
+
+        # For all other G, the surface integral is turned into a sum over the
+        # edges. Every term is regular, and so is its derivative, whatever the
+        # orientation of the edge with respect to the axes or to G.
+        if np.sum(~ind_g0) > 0:
+            gsq = np.where(ind_g0[:, np.newaxis], 1.,
+                           np.square(gx) + np.square(gy))
+            arg = (bd.dot(gx, xn - xj) + bd.dot(gy, yn - yj)) / 2
+            # sin(arg)/arg, with a series expansion for small arguments
+            small = np.abs(get_value(arg)) < 0.02
+            arg_large = bd.where(small, 1., arg)
+            argsq = bd.square(bd.where(small, arg, 0.))
+            sinc = bd.where(small, 1 - argsq / 6 * (1 - argsq / 20 *
+                                                    (1 - argsq / 42)),
+                            bd.sin(arg_large) / arg_large)
+            phase = (bd.dot(gx, xn + xj) + bd.dot(gy, yn + yj)) / 2
+            flux = bd.dot(gx / gsq, yn - yj) - bd.dot(gy / gsq, xn - xj)
+            ft = bd.where(ind_g0, ft,
+                          1j * bd.sum(flux * sinc * bd.exp(-1j * phase), axis=1))
 
         return ft
 
-- 
2.43.0


From 06550c26918b3f70b67af6688930b17eb3865c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 39/73] fix: toeplitz_block gradient of real arrays has a
 complex type

---
 legume/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index aa750cb..5bb4d92 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -67,7 +67,7 @@ def vjp_maker_TB_T1(Tmat, n, T1, T2):
                     if ind2 > ind1:
                         vjac[(ind2-ind1)*p:(ind2-ind1+1)*p-indp] += \
                             np.conj(v[ind2*p+indp:(ind2+1)*p, ind1*p + indp])
-        return vjac
+        return vjac if np.iscomplexobj(T1) else np.real(vjac)
 
     return vjp
 
@@ -89,7 +89,7 @@ def vjp_maker_TB_T2(Tmat, n, T1, T2):
                     if ind2 > ind1:
                         vjac[(ind2-ind1)*p+1:(ind2-ind1+1)*p-indp] += \
                             np.conj(v[ind2*p+indp, ind1*p+indp+1:(ind1+1)*p])
-        return vjac
+        return vjac if np.iscomplexobj(T2) else np.real(vjac)
 
     return vjp
 
-- 
2.43.0


From a56c625d95449f964669ee887a76453993420af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 40/73] fix: eigh gradient is NaN when two other eigenvalues
 coincide

---
 legume/primitives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 5bb4d92..4567354 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -117,8 +117,9 @@ def vjp_maker_eigh(ans, x, UPLO='L'):
         # This can avoid NaN results for degenerate cases if the function
         # depends on the eigenvalues only.
         if np.any(vg):
-            off_diag = np.ones((N, N)) - np.eye(N)
-            F = off_diag / (T(w_repeated) - w_repeated + np.eye(N))
+            w_diff = T(w_repeated) - w_repeated
+            # Equal eigenvalues do not mix (also avoids 0/0)
+            F = (w_diff != 0) / (w_diff + (w_diff == 0))
             vjp_temp += np.dot(np.dot(vc, F * np.dot(T(v), vg)), T(v))
 
         # eigh always uses only the lower or the upper part of the matrix
-- 
2.43.0


From ff3bb3105b9e89a91912f0e381d878fc6e253d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 41/73] fix: eigsh gradient of eigenvectors inside the spectrum
 is wrong or NaN

---
 legume/primitives.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 4567354..6538439 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -193,6 +193,7 @@ def vjp_maker_eigsh(ans, mat, **kwargs):
 
     def vjp(g):
         vjp_temp = np.zeros_like(mat)
+        w_all = None
         for iv in range(numeig):
             a = ans[0][iv]
             v = ans[1][:, iv]
@@ -209,16 +210,19 @@ def vjp_maker_eigsh(ans, mat, **kwargs):
             if np.any(vg):
                 # Projection operator on space orthogonal to v
                 P = np.eye(N, N) - np.outer(vc, v)
-                Amat = T(mat - a * np.eye(N, N))
                 b = P.dot(vg)
 
-                # Initial guess orthogonal to v
-                v0 = P.dot(np.random.randn(N))
-
-                # Find a solution lambda_0 using conjugate gradient
-                (l0, _) = sp.linalg.cg(Amat, b, x0=v0, atol=0)
-                # Project to correct for round-off errors
-                l0 = P.dot(l0)
+                # Find the solution lambda_0 of T(mat - a) l0 = b. The matrix
+                # is singular and, in general, indefinite (so conjugate
+                # gradient does not apply): use the spectral decomposition
+                if w_all is None:
+                    w_all, v_all = np.linalg.eigh(mat)
+                    w_tol = 1e-13 * N * np.amax(np.abs(w_all))
+                diff = w_all - a
+                keep = np.abs(diff) > w_tol
+                coeff = np.where(keep, T(v_all).dot(b), 0) / \
+                        np.where(keep, diff, 1)
+                l0 = P.dot(np.conj(v_all).dot(coeff))
 
                 vjp_temp -= np.outer(l0, v)
 
-- 
2.43.0


From 15a15fa383f87425ad5a4847293b34d60a4eab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 42/73] fix: interp gradient outside of the interpolation range
 (IndexError or wrong)

---
 legume/primitives.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 6538439..3af4919 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -247,9 +247,15 @@ def vjp_maker_interp(ans, x, xp, yp):
     def vjp(g):
         dydyp = np.zeros((x.size, xp.size))
         ix = np.arange(x.size)
-        indx = np.searchsorted(xp, x[ix]) - 1
-        dydyp[ix, indx] = 1 - (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
-        dydyp[ix, indx + 1] = (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
+        # xp[lo] <= x < xp[hi]; lo = hi outside of the range of xp, where
+        # np.interp is constant
+        indx = np.searchsorted(xp, x[ix], side='right') - 1
+        lo = np.clip(indx, 0, xp.size - 1)
+        hi = np.clip(indx + 1, 0, xp.size - 1)
+        frac = (x[ix] - xp[lo]) * (hi > lo) / np.where(hi > lo,
+                                                       xp[hi] - xp[lo], 1.)
+        dydyp[ix, lo] += 1 - frac
+        dydyp[ix, hi] += frac
         return np.dot(g, dydyp)
 
     return vjp
-- 
2.43.0


From 8bc6078fa61990f4190061e2bbe62b84aca315b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 43/73] fix: eig gradient raises NameError

---
 legume/primitives.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 3af4919..df27c13 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -359,14 +359,14 @@ def vjp_maker_eig(ans, x):
 
     def vjp(g):
         ge, gu = g
-        ge = _matrix_diag(ge)
+        ge = np.diag(ge)
         f = 1 / (e[..., np.newaxis, :] - e[..., :, np.newaxis] + 1.e-20)
-        f -= _diag(f)
+        f -= np.diag(np.diag(f))
         ut = np.swapaxes(u, -1, -2)
-        r1 = f * _dot(ut, gu)
-        r2 = -f * (_dot(_dot(ut, np.conj(u)),
-                        np.real(_dot(ut, gu)) * np.eye(n)))
-        r = _dot(_dot(inv(ut), ge + r1 + r2), ut)
+        r1 = f * np.dot(ut, gu)
+        r2 = -f * (np.dot(np.dot(ut, np.conj(u)),
+                          np.real(np.dot(ut, gu)) * np.eye(n)))
+        r = np.dot(np.dot(np.linalg.inv(ut), ge + r1 + r2), ut)
         if not np.iscomplexobj(x):
             r = np.real(r)
             # the derivative is still complex for real input (imaginary delta is allowed), real output
-- 
2.43.0


From 65085cc04d3949654491be7a1a39d8c2e1bca570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 44/73] fix: gradients w.r.t. displacements are lost in 'tbt'
 truncation of inversion-symmetric layers

---
 legume/gme/gme.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 4982b67..7db49e8 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -418,19 +418,23 @@ class GuidedModeExp(object):
             G2[:, ind1*n2max:(ind1+1)*n2max] = - self.gvec[:, [ind1*n2max]] + \
                             self.gvec[:, range(n2max)]
 
+        def is_real(T):
+            # If gradients are traced the imaginary part is kept even if it is
+            # zero, because its derivative is not
+            return get_value(T) is T and np.amax(np.abs(
+                np.imag(T))) < 1e-10 * np.amax(np.abs(np.real(T)))
+
         for layer in [self.phc.claddings[0]] + self.phc.layers + \
                             [self.phc.claddings[1]]:
             T1 = layer.compute_ft(G1)
             T2 = layer.compute_ft(G2)
 
             # Store T1 and T2
-            if bd.amax(bd.abs(
-                    bd.imag(T1))) < 1e-10 * bd.amax(bd.abs(bd.real(T1))):
+            if is_real(T1):
                 self.T1.append(bd.real(T1))
             else:
                 self.T1.append(T1)
-            if bd.amax(bd.abs(
-                    bd.imag(T2))) < 1e-10 * bd.amax(bd.abs(bd.real(T2))):
+            if is_real(T2):
                 self.T2.append(bd.real(T2))
             else:
                 self.T2.append(T2)
-- 
2.43.0


From 23eb09a56f6f5fd286cd483c7f056232aee26864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 45/73] fix: adam overwrites the start point of the caller when
 it is out of bounds

---
 legume/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 7e0e1e1..74579ad 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -93,7 +93,8 @@ class Minimize(object):
         Callback        -- function to call at every epoch; the argument that's
                             passed in is the current minimizer state
         """
-        self.params = pstart
+        # Copy, because the bounds are imposed in place
+        self.params = np.copy(pstart)
         self.bounds = self._parse_bounds(bounds)
         self.Nepochs = Nepochs
         self.disp_p = disp_p
-- 
2.43.0


From 8994110f170406aae312eaf9b551663f3cffdda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 46/73] fix: adam raises TypeError for scipy-like one-sided
 bounds

---
 legume/minimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 74579ad..88e0803 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -130,8 +130,11 @@ class Minimize(object):
                 self.params = self.params - step_size * grad_adam
 
             if bounds:
-                lbs = np.array([b[0] for b in self.bounds])
-                ubs = np.array([b[1] for b in self.bounds])
+                # As in scipy.minimize, None stands for no bound
+                lbs = np.array(
+                    [-np.inf if b[0] is None else b[0] for b in self.bounds])
+                ubs = np.array(
+                    [np.inf if b[1] is None else b[1] for b in self.bounds])
                 self.params[self.params < lbs] = lbs[self.params < lbs]
                 self.params[self.params > ubs] = ubs[self.params > ubs]
 
-- 
2.43.0


From 3650baaacbd72b31e1dcf1259e43f59fbf1f9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 47/73] fix: lbfgs with pass_self does not pass the optimizer
 to the first evaluation

---
 legume/minimize.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 88e0803..e6b36a7 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -203,6 +203,9 @@ class Minimize(object):
         self.t_store = time.time()
         self.of_list = []
 
+        if pass_self == True:
+            args = (*args, self)
+
         # Get initial of value
         of = self.objective(self.params, *args)
         self.of_list.append(self._get_value(of))
@@ -211,11 +214,6 @@ class Minimize(object):
             """Modify the objective function slightly to allow storing
             intermediate objective values without re-evaluating the function
             """
-            if pass_self == True:
-                arglist = list(args)
-                arglist.append(self)
-                args = tuple(arglist)
-
             out = value_and_grad(self.objective)(params, *args, **kwargs)
             self.of_last = self._get_value(out[0])
             return out
-- 
2.43.0


From 9401011d75381f45efb547cfecbb7dc33d2ca31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 48/73] fix: generate_gds_raster raises TypeError for a list of
 levels (the default)

---
 legume/gds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/gds.py b/legume/gds.py
index 550bbac..4f276c3 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -99,7 +99,9 @@ def generate_gds_raster(lattice,
         Default is [0.5].
     """
 
-    contours = skimage.measure.find_contours(raster, levels)
+    contours = []
+    for level in np.atleast_1d(levels):
+        contours += skimage.measure.find_contours(raster, level)
     polygons = []
 
     T = np.hstack((lattice.a1[:, np.newaxis], lattice.a2[:, np.newaxis]))
-- 
2.43.0


From 0dac164ec081b81269e4c381a59d7776e84b0eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 49/73] fix: generate_gds_raster raises NameError if cell_bound
 is False

---
 legume/gds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index 4f276c3..27b2445 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -126,7 +126,6 @@ def generate_gds_raster(lattice,
                                [-0.5, +0.5, +0.5, -0.5]])
         points = [(x, y) for (x, y) in zip(bounds[0, :], bounds[1, :])]
         boundary = gdspy.Polygon(points, layer=0, datatype=1)
-
-    cell.add(boundary)
+        cell.add(boundary)
 
     gdspy.write_gds(filename, unit=unit)
-- 
2.43.0


From 544d677804aba5f31a64d426915d3c7a62d1c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 50/73] fix: viz.bands uses a colormap function removed from
 matplotlib

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 8d4850c..133d43f 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -138,7 +138,7 @@ def bands(gme,
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
                 Q_max = np.max(Q[Q < Q_clip])
-                edgecolors = mpl.cm.get_cmap('bwr')(
+                edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
                 p = ax.scatter(X.flatten(),
-- 
2.43.0


From 14bbbe99942b6c05a87034cbe686d23893db134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 51/73] fix: viz.bands draws even modes in the odd colour if
 all modes are even

---
 legume/viz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/legume/viz.py b/legume/viz.py
index 133d43f..e7dc701 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -194,6 +194,8 @@ def bands(gme,
                            conv * gme.freqs.flatten(),
                            c=gme.kz_symms,
                            cmap='bwr',
+                           vmin=-1,
+                           vmax=1,
                            s=markersize**2,
                            edgecolors=markeredgecolor,
                            linewidth=markeredgewidth)
-- 
2.43.0


From 3b95cd814be8bce11554559d4837c268b27b3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 52/73] fix: viz.bands with Q fails if no mode has losses

---
 legume/viz.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index e7dc701..aef9d66 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -115,14 +115,14 @@ def bands(gme,
                 gme.run_im()
             Q = _calculate_Q(gme.freqs.flatten(),
                              np.array(gme.freqs_im).flatten())
-            Q_max = np.max(Q[Q < Q_clip])
+            norm = _Q_norm(Q, Q_clip)
 
             p = ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
                            c=Q,
                            cmap=Q_cmap,
                            s=markersize**2,
-                           norm=mpl.colors.LogNorm(vmax=Q_max),
+                           norm=norm,
                            edgecolors=markeredgecolor,
                            linewidth=markeredgewidth)
             plt.colorbar(p,
@@ -137,7 +137,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                norm = _Q_norm(Q, Q_clip)
                 edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
@@ -146,7 +146,7 @@ def bands(gme,
                                c=Q,
                                cmap=Q_cmap,
                                s=markersize**2,
-                               norm=mpl.colors.LogNorm(vmax=Q_max),
+                               norm=norm,
                                edgecolors=edgecolors,
                                linewidth=markeredgewidth)
                 plt.colorbar(p,
@@ -160,14 +160,14 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                norm = _Q_norm(Q, Q_clip)
 
                 p = ax.scatter(X.flatten(),
                                conv * gme.freqs.flatten(),
                                c=Q,
                                cmap=Q_cmap,
                                s=markersize**2,
-                               norm=mpl.colors.LogNorm(vmax=Q_max),
+                               norm=norm,
                                edgecolors=markeredgecolor,
                                linewidth=markeredgewidth)
                 plt.colorbar(p,
@@ -1468,6 +1468,19 @@ def _calculate_Q(re_w, im_w):
     return Q
 
 
+def _Q_norm(Q, Q_clip):
+    """
+    Logarithmic colour scale for quality factors, up to the
+    largest value below `Q_clip`
+    """
+    Q_below = Q[(Q > 0) & (Q < Q_clip)]
+    if Q_below.size == 0:
+        # Only modes with no losses
+        return mpl.colors.LogNorm(vmin=Q_clip / 10, vmax=Q_clip)
+
+    return mpl.colors.LogNorm(vmax=np.max(Q_below))
+
+
 def _calculate_LL(kpoints, phc, conv):
     """
     Calculates the light line for a
-- 
2.43.0


From 7d85f12e9c6ce9346e53b7be8c3182bcdfe8c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 53/73] fix: viz.bands fails for PlaneWaveExp with default
 arguments

---
 legume/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index aef9d66..9fa9761 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -211,7 +211,8 @@ def bands(gme,
                         mec=markeredgecolor)
                 ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
-    if cone:
+    # There are no claddings, and no light cone, in a PlaneWaveExp
+    if cone and isinstance(gme, GuidedModeExp):
         vec_LL = _calculate_LL(gme.kpoints, gme.phc, conv)
         ax.fill_between(X0,
                         vec_LL,
-- 
2.43.0


From d4bd544e5e8765fe667f96ac6f546d249101056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 54/73] fix: viz.eps_ft and viz.pot_ft raise NameError with a
 gridspec

---
 legume/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 9fa9761..96a6479 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -951,9 +951,9 @@ def eps_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
@@ -1077,9 +1077,9 @@ def pot_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
-- 
2.43.0


From 07de0391b84215bef4c9a51c04f6a42efb214c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 55/73] fix: viz.field with periodic=False applies a wrong
 phase in the xy-plane

---
 legume/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 96a6479..04ecdd9 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1219,8 +1219,8 @@ def field(struct,
                     np.meshgrid(grid1, grid2, np.array(z))).squeeze()
         pl, o, v = 'xy', 'z', zval
         if periodic == False:
-            kenv = np.exp(1j * grid1 * struct.kpoints[0, kind] +
-                          1j * grid2 * struct.kpoints[1, kind])
+            kenv = np.exp(1j * grid1[None, :] * struct.kpoints[0, kind] +
+                          1j * grid2[:, None] * struct.kpoints[1, kind])
 
     elif x is not None and z is None and y is None:
         if str_type == 'pwe':
-- 
2.43.0


From 34b5f69e8e5e3e9ae7a970183df8a0382b559b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 56/73] fix: viz.field applies the phase twice for a repeated
 component

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 04ecdd9..66b3623 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1268,7 +1268,7 @@ def field(struct,
     for ic, comp in enumerate(component):
         f = fi[comp]
         if periodic == False:
-            f *= kenv
+            f = f * kenv
 
         extent = [grid1[0], grid1[-1], grid2[0], grid2[-1]]
         if sp > 1:
-- 
2.43.0


From d639fbc17d916d1e509cc867c1d374a47309dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 57/73] fix: viz.shapes fails for an Ellipse

---
 legume/viz.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 66b3623..c423cee 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -4,7 +4,7 @@ import numpy as np
 from legume.utils import from_freq_to_e
 import warnings
 from .gme import GuidedModeExp
-from .phc import PhotCryst, Circle
+from .phc import PhotCryst, Circle, Ellipse
 from .pwe import PlaneWaveExp
 from .exc import ExcitonSchroedEq
 from .pol import HopfieldPol
@@ -658,6 +658,15 @@ def shapes(layer, ax=None, npts=101, color='k', lw=1, pad=True):
                                  color=color,
                                  lw=lw,
                                  npts=npts)
+        elif type(shape) == Ellipse:
+            phi = np.linspace(0, 2 * np.pi, npts)
+            x1, y1 = shape.rx * np.cos(phi), shape.ry * np.sin(phi)
+            x = shape.x_cent + x1 * np.cos(shape.phi) - y1 * np.sin(shape.phi)
+            y = shape.y_cent + x1 * np.sin(shape.phi) + y1 * np.cos(shape.phi)
+            ax.plot(x, y, c=color, lw=lw)
+            if pad == True:
+                for (x_p, y_p) in xy_p:
+                    ax.plot(x + x_p, y + y_p, c=color, lw=lw)
         else:
             # Everything else should be a Poly subclass
             ax.plot(shape.x_edges, shape.y_edges, c=color, lw=lw)
-- 
2.43.0


From cb6eb32f5ee173e95d9250a6f8aecd2dd0e5a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 58/73] fix: calculate_x gives NaN if all wavevectors coincide

---
 legume/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index c423cee..ad794b3 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1449,7 +1449,8 @@ def calculate_x(kpoints, num_eig, k_units):
 
     delta_k = np.diff(kpoints, axis=-1)
     mod_delta_k = np.sqrt(np.square(delta_k[0, :]) + np.square(delta_k[1, :]))
-    delta_k_norm = mod_delta_k / np.sum(mod_delta_k)
+    k_length = np.sum(mod_delta_k)
+    delta_k_norm = mod_delta_k / k_length if k_length > 0 else mod_delta_k
 
     if k_units:
         # X0 is a normalised ([0,..,1]) with the same shape of mod_k
-- 
2.43.0


From 12f90a482328060380ce42ab78836a0de2a5a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 59/73] fix: toeplitz_block drops the imaginary part of T2 if
 T1 is real

---
 legume/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index 05c1c53..e8eccfc 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -147,7 +147,7 @@ def toeplitz_block(n, T1, T2):
     """
     ntot = T1.shape[0]
     p = int(ntot / n)  # Linear size of each block
-    Tmat = np.zeros((ntot, ntot), dtype=T1.dtype)
+    Tmat = np.zeros((ntot, ntot), dtype=np.result_type(T1, T2))
     for ind1 in range(n):
         for ind2 in range(ind1, n):
             toep1 = T1[(ind2 - ind1) * p:(ind2 - ind1 + 1) * p]
-- 
2.43.0


From 3d041ba228b257f714186018744651eef11f5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 60/73] fix: from_freq_to_e divides by zero before rejecting a
 = 0

---
 legume/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index e8eccfc..ff72646 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -267,11 +267,11 @@ def from_freq_to_e(a):
         conversion factor
 
     """
-    conv = cs.h_eV_Hz * cs.c / a
-
     if a <= 0:
         raise ValueError("Lattice constant should be strictly positive.")
 
+    conv = cs.h_eV_Hz * cs.c / a
+
     # Maybe we should implement a warning and not a simple print?
     if a < 5e-8 or a > 5e-6:
         warnings.warn(
-- 
2.43.0


From f50071f1b80ce3d981b67d78507dc2ea37e3d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 61/73] fix: grad_num fails for a step size that is a number
 but not a float

---
 legume/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index ff72646..7ff6c42 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -88,10 +88,7 @@ def grad_num(fn, arg, step_size=1e-7):
     gradient = np.zeros((N, ))
     f_old = fn(arg)
 
-    if type(step_size) == float:
-        step = step_size * np.ones((N))
-    else:
-        step = step_size.ravel()
+    step = (step_size * np.ones(shape)).ravel()
 
     for i in range(N):
         arg_new = arg.flatten()
-- 
2.43.0


From c235371106bd299250becab6b26d4e3bc8a57d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 62/73] fix: numerical gradients vanish for integer arguments

---
 legume/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index 7ff6c42..fc99e12 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -91,7 +91,7 @@ def grad_num(fn, arg, step_size=1e-7):
     step = (step_size * np.ones(shape)).ravel()
 
     for i in range(N):
-        arg_new = arg.flatten()
+        arg_new = arg.flatten() + np.zeros(N)
         arg_new[i] += step[i]
         f_new_i = fn(arg_new.reshape(shape))
         gradient[i] = (f_new_i - f_old) / step[i]
@@ -117,7 +117,7 @@ def vjp_maker_num(fn, arg_inds, steps):
                 vjp_num = np.zeros(num_p)
                 for ip in range(num_p):
                     args_new = list(args)
-                    args_rav = args[arg_ind].flatten()
+                    args_rav = args[arg_ind].flatten() + np.zeros(num_p)
                     args_rav[ip] += step
                     args_new[arg_ind] = args_rav.reshape(shape)
                     dfn_darg = (fn(*args_new) - fn_out) / step
-- 
2.43.0


From 23542ce349cc63428c4c9f7d83084dfa3786aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 63/73] fix: vjp_maker_num flattens the gradient of a
 multidimensional argument

---
 legume/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index fc99e12..c038c98 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -123,7 +123,7 @@ def vjp_maker_num(fn, arg_inds, steps):
                     dfn_darg = (fn(*args_new) - fn_out) / step
                     vjp_num[ip] = np.sum(v * dfn_darg)
 
-                return vjp_num
+                return vjp_num.reshape(shape)
 
             return vjp
 
-- 
2.43.0


From 81d49c0225294bc04de63c23f8bf573e36127998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 64/73] fix: rad_modes does not normalise for pol='TE' (its
 default)

---
 legume/gme/slab_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 51475ca..7265340 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -517,7 +517,7 @@ def rad_modes(omega: float,
 
         # Normalize
         coeffs = coeffs / coeffs[1, -1]
-        if pol == 'te':
+        if pol.lower() == 'te':
             c_ind = [0, -1]
             coeffs = coeffs / bd.sqrt(eps_array[c_ind[clad]]) / omega
         # Assign correctly based on which cladding the modes radiate to
-- 
2.43.0


From dffab2399b543ef8d94e24e87b2fc47efe2f2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 65/73] fix: get_eps misses shapes placed far away from the
 origin

---
 legume/phc/layer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index 45e30d0..4d46f17 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -200,7 +200,16 @@ class ShapesLayer(Layer):
         # primitive vectors which are far from perpendicular.
         rmax = np.sqrt(
             np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-        rmax = rmax + max([np.linalg.norm(a1), np.linalg.norm(a2)])
+        # A shape may lie anywhere, i.e. also far away from the origin
+        rshape = [np.linalg.norm(a1), np.linalg.norm(a2)]
+        for shape in self.shapes:
+            x = getattr(shape, 'x_edges', getattr(shape, 'x_cent', 0.))
+            y = getattr(shape, 'y_edges', getattr(shape, 'y_cent', 0.))
+            r = max(utils.get_value(getattr(shape, attr, 0.))
+                    for attr in ('r', 'rx', 'ry'))
+            rshape.append(
+                np.max(np.hypot(utils.get_value(x), utils.get_value(y))) + r)
+        rmax = rmax + max(rshape)
         nmax1 = np.int_(rmax * np.linalg.norm(self.lattice.b1) / 2 / np.pi)
         nmax2 = np.int_(rmax * np.linalg.norm(self.lattice.b2) / 2 / np.pi)
 
-- 
2.43.0


From a790b988bfe0b137e9bdbe7e1f1fca6b271c37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 66/73] fix: print the exciton loss in the stated unit

A loss given in eV was multiplied by 1e3 and labelled ueV.
---
 legume/exc/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 3e35fb4..16c2ee5 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -106,7 +106,7 @@ class ExcitonSchroedEq(object):
         rep += 'a = ' + repr(self.a) + ' m, \n'
         rep += 'M = ' + f'{self.M:.3e}' + ' kg, \n'
         rep += 'E0 = ' + repr(self.E0) + ' eV, \n'
-        rep += 'loss = ' + repr(self.loss * 1e3) + ' ueV, \n'
+        rep += 'loss = ' + repr(self.loss * 1e6) + ' ueV, \n'
         rep += 'z = ' + f'{self.z:.6f}' + ', \n'
         rep += 'V_shapes = ' + repr(self.V_shapes) + ' eV, \n'
         if self.osc_str is not None:
-- 
2.43.0


From f2dc7c691e987f78ee052fc33c6a26ad0c1fe9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 67/73] fix: bz_path misses gamma where an interpolated point
 rounds next to it

---
 legume/phc/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 057ddb6..721a4a0 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -161,7 +161,9 @@ class Lattice(object):
         # Angles of wavevectors in (kx,ky) plane
         angs = np.angle(kpoints[0] + 1j * kpoints[1], deg=True)
         #If gamma point is present, force symmetry from 'symm_g'
-        index_g = np.where((kpoints[0] == 0) & (kpoints[1] == 0))
+        # (interpolated points can miss gamma by a rounding error)
+        mod_k = np.sqrt(np.square(kpoints[0]) + np.square(kpoints[1]))
+        index_g = np.where(mod_k <= 1e-12 * np.amax(mod_k))
         if len(index_g) != 0:
             ang_g = np.angle(self._parse_point(symm_g)[0] +
                              1j * self._parse_point(symm_g)[1],
-- 
2.43.0


From 21a7f76b5a0b2e3e49b8d38bff85bf491630ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 68/73] fix: polariton runs with compute_im=False fail

---
 legume/pol/pol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 593af28..6d0fde6 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -313,6 +313,9 @@ class HopfieldPol(object):
 
         #Run gme
         self.gme.run(**gme_options)
+        if len(self.gme.freqs_im) == 0:
+            # The photonic losses enter the Hopfield matrix
+            self.gme.run_im()
 
         self.num_QWs = np.shape(self.exc_list)[0]
 
-- 
2.43.0


From b509c0cae088728c5b4aa9e78d8b27dc5ea20a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 69/73] fix: guided modes for a polarisation given as 'te' or
 'tm'

---
 legume/gme/slab_modes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 7265340..b4b18cf 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -442,7 +442,7 @@ def normalization_coeff(omega,
         chi_array = chi(omega, g, eps_array)
     As = ABref[:, 0].ravel()
     Bs = ABref[:, 1].ravel()
-    if pol == 'TM':
+    if pol.lower() == 'tm':
         term1 = (bd.abs(Bs[0])**
                  2) * J_alpha(chi_array[0] - bd.conj(chi_array[0]))
         term2 = (bd.abs(As[-1])**2) * \
@@ -453,7 +453,7 @@ def normalization_coeff(omega,
                 (bd.conj(As[1:-1]) * Bs[1:-1] + As[1:-1] * bd.conj(Bs[1:-1])) *
                 I_alpha(-chi_array[1:-1]-bd.conj(chi_array[1:-1]),d_array)  )
         return term1 + term2 + bd.sum(term3)
-    elif pol == 'TE':
+    elif pol.lower() == 'te':
         term1 = (bd.abs(chi_array[0])**2 + g**2) * \
             (bd.abs(Bs[0])**2) * J_alpha(chi_array[0]-bd.conj(chi_array[0]))
         term2 = (bd.abs(chi_array[-1])**2 + g**2) * \
-- 
2.43.0


From bdf76540fc6cfa7f50ae2e1faea3a986add4cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 70/73] fix: guided modes are skipped if a permittivity is
 below one

---
 legume/gme/slab_modes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index b4b18cf..251ab93 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -60,12 +60,13 @@ def guided_modes(g_array: np.ndarray,
 
         if ig > 0:
             if len(omegas) == n_modes:
-                # Dispersion cannot be faster than speed of light;
-                # step is added just to be on the safe side
+                # Dispersion cannot be faster than speed of light in any of
+                # the layers; step is added just to be on the safe side
                 om_ub = min(
                     om_ub,
                     get_value(omegas[-1]) + step +
-                    max(g_array[ig] - g_array[ig - 1], 0))
+                    max(g_array[ig] - g_array[ig - 1], 0) /
+                    np.sqrt(min(eps_val.min(), 1)))
             """
             Check if the guided mode needs to be computed at all; when using the
             gmode_compute = 'exact' option, there might be identical g-points
-- 
2.43.0


From 48cf48286c67fa4048f53fa74c4defdd0e66045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 71/73] fix: circular truncation splits a shell (or hangs) if
 gmax rounds to its modulus

---
 legume/exc/exc.py | 12 ++++++++----
 legume/gme/gme.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 16c2ee5..ce063a9 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -193,11 +193,15 @@ class ExcitonSchroedEq(object):
                 self.phc.lattice.b2[:, np.newaxis].dot(inds2[np.newaxis, :])
         gnorm = np.sqrt(gvec[0, :]**2 + gvec[1, :]**2)
 
-        # Avoid to cut with gmax equal to one of the |G|
-        if self.gmax * 2 * np.pi in gnorm:
+        # Avoid to cut with gmax equal (within rounding) to one of the |G|
+        def on_edge(gmax):
+            return np.any(
+                np.isclose(gnorm, 2 * np.pi * gmax, rtol=1e-12, atol=0))
+
+        if on_edge(self.gmax):
             gmax = self.gmax
-            while gmax * 2 * np.pi in gnorm:
-                gmax += 1e-10
+            while on_edge(gmax):
+                gmax += 1e-10 * max(gmax, 1)
 
             gvec = gvec[:, gnorm <= 2 * np.pi * gmax]
             inds1 = inds1[gnorm <= 2 * np.pi * gmax]
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 7db49e8..5aa5718 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -228,11 +228,15 @@ class GuidedModeExp(object):
                 self.phc.lattice.b2[:, np.newaxis].dot(inds2[np.newaxis, :])
         gnorm = np.sqrt(gvec[0, :]**2 + gvec[1, :]**2)
 
-        # Avoid to cut with gmax equal to one of the |G|
-        if self.gmax * 2 * np.pi in gnorm:
+        # Avoid to cut with gmax equal (within rounding) to one of the |G|
+        def on_edge(gmax):
+            return np.any(
+                np.isclose(gnorm, 2 * np.pi * gmax, rtol=1e-12, atol=0))
+
+        if on_edge(self.gmax):
             gmax = self.gmax
-            while gmax * 2 * np.pi in gnorm:
-                gmax += 1e-10
+            while on_edge(gmax):
+                gmax += 1e-10 * max(gmax, 1)
 
             gvec = gvec[:, gnorm <= 2 * np.pi * gmax]
             inds1 = inds1[gnorm <= 2 * np.pi * gmax]
-- 
2.43.0


From 2e133ba998ec2f8a30d6e2d3b7370bfa74944cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 72/73] fix: guided modes at the first wavevector are lost if
 lengths are in metres

---
 legume/gme/gme.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 5aa5718..4fc6148 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -305,7 +305,8 @@ class GuidedModeExp(object):
             Interpolate all the relevant guided mode parameters over gk
             """
             gs = self.g_array[ik][-len(omegas[ik][im]):]
-            indmode = np.argwhere(gk > gs[0] - 1e-10).ravel()
+            indmode = np.argwhere(
+                gk > gs[0] - 1e-10 * max(gs[0], 1)).ravel()
             oms = bd.interp(gk[indmode], gs, bd.array(omegas[ik][im]))
             e_a = self.eps_array if self.gradients == 'exact' \
                                     else self.eps_array_val
-- 
2.43.0


From f85d613ee425c874bf96c3f23ae594eade038926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 73/73] fix: guided-mode fields in thick evanescent layers are
 rounding errors

---
 legume/gme/slab_modes.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 251ab93..f3ee15e 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -424,6 +424,40 @@ def AB_matrices(omega, g, eps_array, d_array, chi_array=None, pol='TE'):
             term = bd.dot(T_matrices[i + 1], term)
 
         ABs.append(term)
+
+    # Going upwards from the lower cladding, rounding errors grow exponentially
+    # in the evanescent layers above the maximum of the mode. The coefficients
+    # there are computed downwards from the upper cladding, and joined in the
+    # layer where the two directions agree best.
+    qs = chi_array if pol.lower() == 'te' else chi_array / eps_array
+    ABs_down = [bd.array([1, 0]).reshape(-1, 1)]
+    for i in range(len(d_array), 0, -1):
+        (A, B) = ABs_down[0]
+        if i < len(d_array):
+            phase = bd.exp(1j * chi_array[i + 1] * d_array[i] / 2)
+            (A, B) = (A / phase, B * phase)
+        phase = bd.exp(1j * chi_array[i] * d_array[i - 1] / 2)
+        ratio = qs[i + 1] / qs[i]
+        ABs_down.insert(
+            0, 0.5 * bd.array([((1 + ratio) * A + (1 - ratio) * B) / phase,
+                               ((1 - ratio) * A + (1 + ratio) * B) * phase]))
+
+    def mismatch(AB, AB_down):
+        (v, w) = (get_value(AB).ravel(), get_value(AB_down).ravel())
+        (v, w) = (v / np.abs(v).max(), w / np.abs(w).max())
+        return np.abs(v[0] * w[1] - v[1] * w[0])
+
+    join = 1 + np.argmin(
+        [mismatch(*x) for x in zip(ABs[1:-1], ABs_down[:-1])])
+    # The overall amplitude is arbitrary: avoid exponentially large numbers
+    norm = np.abs(get_value(ABs[join])).max()
+    norm_down = np.abs(get_value(ABs_down[join - 1])).max()
+    ABs = [AB / norm for AB in ABs[:join + 1]]
+    ABs_down = [AB / norm_down for AB in ABs_down[join - 1:]]
+    scale = bd.sum(bd.conj(ABs_down[0]) * ABs[-1]) / \
+        bd.sum(bd.square(bd.abs(ABs_down[0])))
+    ABs = ABs + [scale * AB for AB in ABs_down[1:]]
+
     return bd.array(ABs, dtype=bd.complex)
 
 
-- 
2.43.0

