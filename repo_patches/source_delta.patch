From 060c452cf19d8115553c8f87ab3f3e21dae5510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 01/65] fix: el.Model.unit_cell for supercells whose first cell
 is not the origin, keep units

The cell list of a skewed or negative supercell does not start with (0, 0, 0).
Take the hoppings from the origin cell and carry over rydberg/divide_ndegen.
---
 elphmod/el.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4fe9485..0d568dd 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -414,6 +414,11 @@ class Model:
         el = Model()
         el.size = self.size // len(self.cells)
 
+        el.divide_ndegen = self.divide_ndegen
+        el.rydberg = self.rydberg
+
+        origin = list(map(tuple, self.cells)).index((0, 0, 0)) * el.size
+
         if comm.rank == 0:
             const = dict()
 
@@ -422,7 +427,8 @@ class Model:
 
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    t = self.data[n, :el.size, i * el.size:(i + 1) * el.size]
+                    t = self.data[n, origin:origin + el.size,
+                        i * el.size:(i + 1) * el.size]
 
                     if np.any(t != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-- 
2.43.0


From 1f8845407c72bb13b3f866b596351f1fc3db5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 02/65] fix: ph.Model.unit_cell for supercells whose first cell
 is not the origin

Take atoms and force constants from the origin cell, do not alias the
supercell's positions, and divide by the signed volume.
---
 elphmod/ph.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0a7ba49..4c472f5 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -689,14 +689,20 @@ class Model:
         ph = Model()
         ph.size = self.size // len(self.cells)
         ph.nat = self.nat // len(self.cells)
-        ph.M = self.M[:ph.nat]
-        ph.atom_order = self.atom_order[:ph.nat]
-        ph.r = self.r[:ph.nat]
+
+        origin = list(map(tuple, self.cells)).index((0, 0, 0))
+
+        atoms = slice(origin * ph.nat, (origin + 1) * ph.nat)
+        origin *= ph.size
+
+        ph.M = self.M[atoms]
+        ph.atom_order = self.atom_order[atoms]
+        ph.r = self.r[atoms].copy()
 
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
-        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / len(self.cells)
+        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / np.dot(self.N[0], B1)
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
@@ -716,12 +722,12 @@ class Model:
         if self.Z is None:
             ph.Z = None
         else:
-            ph.Z = self.Z[:ph.nat]
+            ph.Z = self.Z[atoms]
 
         if self.Q is None:
             ph.Q = None
         else:
-            ph.Q = self.Q[:ph.nat]
+            ph.Q = self.Q[atoms]
 
         if self.lr:
             ph.prepare_long_range()
@@ -734,7 +740,8 @@ class Model:
 
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    C = self.data[n, :ph.size, i * ph.size:(i + 1) * ph.size]
+                    C = self.data[n, origin:origin + ph.size,
+                        i * ph.size:(i + 1) * ph.size]
 
                     if np.any(C != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-- 
2.43.0


From 958c4ae7d1f37cd6264d9461b8abef9ea81264d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 03/65] fix: standardize drops lattice vectors whose
 contributions cancel

Also keep the array shapes if nothing is left, so that the model can still be
evaluated.
---
 elphmod/el.py   | 7 ++++---
 elphmod/elel.py | 7 ++++---
 elphmod/ph.py   | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 0d568dd..d3b1a28 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -562,11 +562,12 @@ class Model:
 
                 status.update()
 
-            cells = sorted(list(const.keys()))
+            cells = sorted(R for R in const if np.any(const[R] != 0.0))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=self.data.dtype).reshape((-1, self.size, self.size))
 
             if symmetrize:
                 self.data /= 2
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 9425112..0a6950e 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -246,11 +246,12 @@ class Model:
 
                 status.update()
 
-            cells = sorted(list(const.keys()))
+            cells = sorted(R for R in const if np.any(const[R] != 0.0))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=self.data.dtype).reshape((-1, self.size, self.size))
         else:
             count = None
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 4c472f5..8ece4d7 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -886,11 +886,12 @@ class Model:
 
                 status.update()
 
-            cells = sorted(list(const.keys()))
+            cells = sorted(R for R in const if np.any(const[R] != 0.0))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=self.data.dtype).reshape((-1, self.size, self.size))
 
             if symmetrize:
                 self.data /= 2
-- 
2.43.0


From 11bb72c7a1e4c6212a36c5fbef9a33b63c7086b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 04/65] fix: elph.Model.standardize for more new k than q
 vectors, drop cancelled ones

---
 elphmod/elph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0d8b5b5..c10930b 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -605,6 +605,11 @@ class Model:
 
                     status.update()
 
+            # drop contributions that cancel (always keep origin):
+
+            const = {R: g for R, g in const.items()
+                if not any(R) or np.any(g != 0)}
+
             Rg = sorted(set(R[:3] for R in const))
             Rk = sorted(set(R[3:] for R in const))
 
@@ -624,7 +629,7 @@ class Model:
         if nk <= len(self.Rk):
             self.Rk = self.Rk[:nk]
         else:
-            self.Rk = np.empty((ng, 3), dtype=int)
+            self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0


From 2cc68d4f0fd158792c5dc08639e7590bd153f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 05/65] fix: elph.Model drops cached Fourier transform when
 real-space coupling changes

---
 elphmod/elph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index c10930b..645c0af 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -713,6 +713,8 @@ class Model:
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
+        self.q = None
+
         comm.Barrier()
 
     def decay_epmate(self):
@@ -764,6 +766,7 @@ class Model:
 
         self.data = np.zeros_like(self.data[:0, :, :0, :, :])
         self.gq = np.zeros_like(self.gq[:, :0, :, :])
+        self.q = None
 
     def to_epmatwp(self, prefix):
         """Save coupling to *.epmatwp* and *.wigner* files.
@@ -1094,6 +1097,12 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
     if elph.node.rank == 0:
         elph.images.Bcast(elph.data.view(dtype=float))
 
+    elph.q = None
+    elph.gq = np.empty((elph.ph.size, len(elph.Rk), elph.el.size, elph.el.size),
+        dtype=complex)
+
+    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
+
     comm.Barrier()
 
 def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
-- 
2.43.0


From bceab3f389e4b5727477cf5a576d180f8d0e4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 06/65] fix: ph.Model.shift_atoms does not modify atomic
 positions of other owners

---
 elphmod/ph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 8ece4d7..bfbdf26 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -843,6 +843,7 @@ class Model:
 
         self.standardize()
 
+        self.r = np.copy(self.r)
         self.r[s] += np.dot(S, self.a)
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From 6c9e7e3a3efe1f5507190711f6e59d6db3e1a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 07/65] fix: ph.Model with apply_zasr does not modify Born
 charges of caller

---
 elphmod/ph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index bfbdf26..7162772 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -265,6 +265,7 @@ class Model:
                 Q = read_quadrupole_fmt(quadrupole_fmt)
 
             if apply_zasr and zeu is not None:
+                zeu = np.copy(zeu)
                 zasr(zeu)
 
         phid = comm.bcast(phid)
-- 
2.43.0


From a39e3b48329821a09057b65a19561e6c94f6a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 08/65] fix: to_Voronoi considers all relevant images for any
 shift of the cell

---
 elphmod/bravais.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 87c9771..a6b01d1 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1051,13 +1051,15 @@ def to_Voronoi(k1, k2, nk, angle=60, dk1=0, dk2=0, epsilon=0.0):
     set
         All equivalent point within or on the edge of the Voronoi cell.
     """
-    k1 %= nk
-    k2 %= nk
+    n1 = int(np.floor(dk1))
+    n2 = int(np.floor(dk2))
 
-    images = [(k1, k2), (k1 - nk, k2), (k1, k2 - nk), (k1 - nk, k2 - nk)]
+    k1 = (k1 - n1) % nk + n1
+    k2 = (k2 - n2) % nk + n2
 
-    if nk < 3:
-        images.extend([(k1 + nk, k2), (k1, k2 + nk), (k1 + nk, k2 + nk)])
+    images = [(k1 + m1 * nk, k2 + m2 * nk)
+        for m1 in (0, -1, 1)
+        for m2 in (0, -1, 1)]
 
     distances = [squared_distance(k1 - dk1, k2 - dk2, angle=angle)
         for k1, k2 in images]
-- 
2.43.0


From 664bd45996ab184da1d2df0262410647d89eb74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 09/65] fix: linear_interpolation of data with further axes

---
 elphmod/bravais.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index a6b01d1..890b9e5 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -932,7 +932,13 @@ def linear_interpolation(data, angle=60, axes=(0, 1), period=None, polar=False):
 
     # make interpolant function applicable to arrays and return:
 
-    return np.vectorize(interpolant)
+    if data.ndim > len(axes):
+        signature = '%s->(%s)' % (','.join(['()'] * len(axes)),
+            ','.join('n%d' % n for n in range(data.ndim - len(axes))))
+    else:
+        signature = None
+
+    return np.vectorize(interpolant, signature=signature)
 
 def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         periodic=True):
-- 
2.43.0


From 897719ee6b413251649047800c480dcb368f041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 10/65] fix: resize does not truncate interpolated values of
 integer data

---
 elphmod/bravais.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 890b9e5..2ea60e6 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -984,8 +984,10 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
     size = np.prod(shape)
     sizes, bounds = elphmod.MPI.distribute(size, bounds=True)
 
+    dtype = np.result_type(data.dtype, float)
+
     my_new_data = np.empty((sizes[comm.rank], *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     if periodic:
         scale = np.divide(data.shape[:len(shape)], shape)
@@ -999,7 +1001,7 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         my_new_data[n] = interpolant(*np.multiply(m, scale))
 
     new_data = np.empty((*shape, *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     comm.Allgatherv(my_new_data,
         (new_data, sizes * np.prod(data.shape[len(shape):], dtype=int)))
-- 
2.43.0


From adf4f65504ca02d0e4793dc62a4d94351e2c7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:46 +0000
Subject: [PATCH 11/65] fix: band_order sorts bands by average of disentangled
 energies

---
 elphmod/dispersion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index fc36400..892039d 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -499,7 +499,8 @@ def band_order(v, V, by_mean=True, dv=float('inf'), eps=1e-10, status=True):
             bar.update()
 
     if by_mean:
-        o[:] = o[:, sorted(range(bands), key=lambda i: v[:, o[:, i]].sum())]
+        mean = np.take_along_axis(v, o, axis=1).mean(axis=0)
+        o[:] = o[:, sorted(range(bands), key=lambda i: mean[i])]
 
     return o
 
-- 
2.43.0


From f5bf913e3ce83733fafd06c785540ed76ac1a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:52 +0000
Subject: [PATCH 12/65] fix: renormalize_coupling_orbital for general (not
 density-density) interaction

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5e96149..b81dcf8 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -822,7 +822,7 @@ def renormalize_coupling_orbital(q, e, g, W, U, **kwargs):
 
     g = g.copy()
 
-    while dg.ndim < g.ndim - 1 if dd else g.ndim:
+    while dg.ndim < (g.ndim - 1 if dd else g.ndim):
         dg = dg[:, :, np.newaxis]
 
     if dd:
-- 
2.43.0


From 44b4b9cf4ae2885bea42ef2d91a9cd90ed7c499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 13/65] fix: misc.minimum accepts coordinates as arguments

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index d7a9a6e..817624f 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -775,7 +775,7 @@ def minimum(*args):
     """
     if len(args) == 6:
         x1, x2, x3, y1, y2, y3 = args
-    if len(sys.argv) == 7:
+    elif len(sys.argv) == 7:
         x1, x2, x3, y1, y2, y3 = list(map(float, sys.argv[1:]))
     else:
         raise SystemExit('Usage: minimum x1 x2 x3 y1 y2 y3')
-- 
2.43.0


From 2990cefc7ec857a9cfc6cfb20c18be25de781adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 14/65] fix: point_on_path considers all three components of
 distance

---
 elphmod/bravais.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 2ea60e6..e9b56e4 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2589,8 +2589,7 @@ def point_on_path(test_point, point_A, point_B, eps=1e-14):
         dot = np.dot(point_B - point_A, test_point - point_A)
 
         if dot >= 0:
-            squared_distance = (
-                (point_B - point_A)[0] ** 2 + (point_B - point_A)[1] ** 2)
+            squared_distance = np.dot(point_B - point_A, point_B - point_A)
 
             if dot <= squared_distance:
                 #'The test point is between A and B'
-- 
2.43.0


From 4c0c4d0b30471b059d0c009d844196f7cccb14b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 15/65] fix: bravais.primitives does not modify celldm of
 caller

---
 elphmod/bravais.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index e9b56e4..13ea146 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -94,6 +94,9 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
         elif ibrav in {-5, 5, 12, 13}:
             celldm[3] = cosab
 
+    else:
+        celldm = list(celldm)
+
     if not bohr:
         celldm[0] *= elphmod.misc.a0
 
-- 
2.43.0


From 62ddbd147982e8e11743931ae89d20ab3a091c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 16/65] fix: BZ outline of square lattice

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 13ea146..d8dd9db 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1798,7 +1798,7 @@ def BZ(angle=120, angle0=0):
 
     elif angle == 90:
         M = [(1, 1), (-1, 1), (-1, -1), (1, -1), (1, 1)]
-        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M])
+        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M]) / 2
 
     elif angle == 120:
         K = [(1, 1), (-1, 2), (-2, 1), (-1, -1), (1, -2), (2, -1), (1, 1)]
-- 
2.43.0


From 81ccadb793c9137ae48146c1b11b278cf2b84953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 17/65] fix: share band order with all processes of the node

---
 elphmod/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 892039d..7009e5e 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -168,7 +168,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             dtype=int, **memory)
 
         if comm.rank == 0:
-            o = band_order(v, V, **order_kwargs)
+            o[...] = band_order(v, V, **order_kwargs)
 
             for point in range(points):
                 v[point] = v[point, o[point]]
-- 
2.43.0


From bfbbd1f374cdbb59de9a66dc9f3bc093ed93272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 18/65] fix: order bands only once and where they are stored

---
 elphmod/dispersion.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 7009e5e..2c526e3 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -387,13 +387,21 @@ def dispersion_full_nosym(matrix, size, vectors=False, order=False,
         _, o = dispersion_full(matrix, size, vectors=False, order=True,
             *args, **kwargs)
 
-        for k1 in range(size):
-            for k2 in range(size):
-                v[k1, k2] = v[k1, k2, o[k1, k2]]
+        # apply order once per memory and only where there are results:
 
-                if vectors:
-                    for n in range(V.shape[2]):
-                        V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+        node, images = elphmod.MPI.shm_split(comm,
+            shared_memory=kwargs.get('shared_memory', False))
+
+        if node.rank == 0 and (comm.rank == 0 or kwargs.get('broadcast', True)):
+            for k1 in range(size):
+                for k2 in range(size):
+                    v[k1, k2] = v[k1, k2, o[k1, k2]]
+
+                    if vectors:
+                        for n in range(V.shape[2]):
+                            V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+
+        node.Barrier()
 
     # return results:
 
-- 
2.43.0


From cc1eb74bdfad4d6f8504e768e9741a84d12e03de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 19/65] fix: wait for sampled coupling in shared memory

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 645c0af..2c1103c 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -938,6 +938,8 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
 
                 row.Barrier()
 
+        node.Barrier()
+
         return g
 
     if col.rank == 0:
-- 
2.43.0


From e5f3cd66f46de0e95c1e0766859bfebe241518e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 20/65] fix: wait for supercell coupling in shared memory

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 2c1103c..1a251e4 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -548,6 +548,8 @@ class Model:
                 elph.images.Allreduce(elphmod.MPI.MPI.IN_PLACE,
                     elph.data[g].view(dtype=float))
 
+        elph.node.Barrier()
+
         return elph
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From 6fc8bc40162715f35c4d418e403af8d8c4400f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 21/65] fix: agree on shared memory for nodes of different size

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 1a251e4..265a2fa 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -641,7 +641,7 @@ class Model:
             self.data = self.data.reshape(shape)
         else:
             self.node, self.images, self.data = elphmod.MPI.shared_array(shape,
-                dtype=complex, shared_memory=self.node.size > 1)
+                dtype=complex, shared_memory=self.images.size < comm.size)
 
         if comm.rank == 0:
             self.Rg[...] = Rg
-- 
2.43.0


From bdef1fc71b49716b9dedac4389192f6308d1ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 22/65] fix: wait for coupling in shared memory before using it

---
 elphmod/md.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 318e200..5697d9b 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -408,6 +408,8 @@ class Driver:
                 if self.node.rank == 0:
                     self.images.Bcast(self.d[iq].view(dtype=float))
 
+            self.node.Barrier()
+
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
-- 
2.43.0


From d8bbeb9bf519134efa6ceba63d00377ec2d34e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 23/65] fix: keep coupling in shared memory until everyone has
 used it

---
 elphmod/md.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 5697d9b..3e080f1 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -416,6 +416,8 @@ class Driver:
             C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(self.e,
                 self.d[0], kT=self.kT, occupations=self.f)
 
+            self.node.Barrier()
+
         C += self.C0[:nq]
 
         if apply_asr_simple:
-- 
2.43.0


From 131adcca35466279341e5ab18291e23afcf29387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 24/65] fix: do not square coupling of the caller

---
 elphmod/elph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 265a2fa..004e13f 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1000,8 +1000,7 @@ def transform(g, q, nk, U=None, u=None, squared=False, broadcast=True,
                     gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                 if squared:
-                    gqk *= gqk.conj()
-                    gqk = gqk.real
+                    gqk = (gqk * gqk.conj()).real
 
                 my_g[my_iq, :, k1, k2, :, :] = gqk
 
-- 
2.43.0


From 2a6e19e2e14f65f10ca973ee49e462d190804529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 25/65] fix: broadcast data loaded from Fortran-ordered file in
 C order

---
 elphmod/MPI.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index 7431d23..d745a88 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -370,7 +370,9 @@ def load(filename, shared_memory=False, txt=False, comm=comm):
 
         return array
     else:
-        if comm.rank != 0:
+        if comm.rank == 0:
+            data = np.asarray(data, order='C')
+        else:
             data = np.empty(shape, dtype=dtype)
 
         comm.Bcast(data)
-- 
2.43.0


From c8d25a97792cf4a259305c18cf19837559acdde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:48 +0000
Subject: [PATCH 26/65] fix: vanishing density of states must not yield NaN
 force constants

---
 elphmod/diagrams.py | 5 ++++-
 elphmod/md.py       | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index b81dcf8..1dc6139 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -527,7 +527,10 @@ def phonon_self_energy_fermi_shift(e, g, kT=0.025, occupations='fd'):
     d = occupations.delta(x) / kT
 
     dos = d.sum()
-    avg = np.einsum('ijkn,xijknn->x', d, g) / dos
+    avg = np.einsum('ijkn,xijknn->x', d, g)
+
+    if dos != 0:
+        avg /= dos
 
     return 2 / nk.prod() * dos * np.outer(avg, avg) # one complex conjugate?
 
diff --git a/elphmod/md.py b/elphmod/md.py
index 3e080f1..e505066 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -370,7 +370,12 @@ class Driver:
 
             d_orb = self.U * d[np.newaxis] @ V
             avg = np.array([self.d0[x].multiply(d_orb).sum()
-                for x in range(self.elph.ph.size)]) / np.sqrt(dos)
+                for x in range(self.elph.ph.size)])
+
+            shift = np.outer(avg, avg)
+
+            if dos != 0:
+                shift /= dos
 
             status = elphmod.misc.StatusBar(self.elph.ph.size,
                 title='calculate static phonon self-energy')
@@ -384,7 +389,7 @@ class Driver:
                 gx = self.U @ (gx * dfde) @ V # overwriting gx to save memory
 
                 for y in range(x, self.elph.ph.size):
-                    C[0, x, y] = self.d0[y].multiply(gx).sum() + avg[x] * avg[y]
+                    C[0, x, y] = self.d0[y].multiply(gx).sum() + shift[x, y]
                     C[0, y, x] = C[0, x, y]
 
                     if kT is not None:
-- 
2.43.0


From 626913aeb2ce78cedbd1a7131fd24b17ea2ef198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:48 +0000
Subject: [PATCH 27/65] fix: driver must not modify displacements passed as
 argument

---
 elphmod/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index e505066..10f2f46 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -188,7 +188,7 @@ class Driver:
     def center_mass(self):
         """Subtract collective translational displacement component."""
 
-        self.u -= np.tile(np.average(self.u.reshape((-1, 3)), axis=0),
+        self.u = self.u - np.tile(np.average(self.u.reshape((-1, 3)), axis=0),
             self.elph.ph.nat)
 
     def find_Fermi_level(self):
-- 
2.43.0


From fe8a47ee642b06b4d5173fdb5c6f3f811dd45977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:48 +0000
Subject: [PATCH 28/65] fix: save driver that has been initialized with sparse
 model

---
 elphmod/md.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 10f2f46..f173144 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -842,25 +842,16 @@ class Driver:
         interactive = self.interactive
         self.interactive = False
 
-        comms = self.node, self.images
-
-        del self.node
-        del self.images
-
-        if not self.sparse:
-            elph_comms = self.elph.node, self.elph.images
-
-            del self.elph.node
-            del self.elph.images
+        comms = [(obj, name, obj.__dict__.pop(name))
+            for obj in (self, self.elph) for name in ('node', 'images')
+            if name in obj.__dict__]
 
         elphmod.MPI.Buffer(filename).set(self)
 
         self.interactive = interactive
 
-        self.node, self.images = comms
-
-        if not self.sparse:
-            self.elph.node, self.elph.images = elph_comms
+        for obj, name, value in comms:
+            setattr(obj, name, value)
 
     @staticmethod
     def load(filename):
-- 
2.43.0


From 9f8ba05c2da429a5baf146cf1558794aefe199cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:21 +0000
Subject: [PATCH 29/65] fix: free energy for two Fermi levels must be
 consistent with forces

---
 elphmod/md.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index f173144..17b6edd 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -266,6 +266,9 @@ class Driver:
         E += self.mu * self.n # mu N
         E -= prefactor * self.kT * self.f.entropy(self.e / self.kT).sum() # T S
 
+        if self.f is elphmod.occupations.two_fermi_dirac:
+            E += 2 * self.kT * self.f.d * self.nx # (muc - muv) Nx
+
         E += 0.5 * self.u.dot(self.C0[0].real).dot(self.u)
 
         E += self.F0.dot(self.u)
-- 
2.43.0


From c4459087797d7fbbf4e5589ce0a21bc347adbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:21 +0000
Subject: [PATCH 30/65] fix: drivers with two Fermi levels must not share their
 distance

---
 elphmod/md.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 17b6edd..52ab30d 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -90,6 +90,19 @@ class Driver:
         Communicators between processes that share memory or same ``node.rank``
         if `shared_memory`.
     """
+    _d = elphmod.occupations.two_fermi_dirac.d
+
+    @property
+    def f(self):
+        if self._f is elphmod.occupations.two_fermi_dirac:
+            self._f.d = self._d
+
+        return self._f
+
+    @f.setter
+    def f(self, f):
+        self._f = f
+
     def __init__(self, elph, kT, f, n, nx=0.0, nk=(1,), nq=(1,),
             supercell=None, unscreen=True, shared_memory=True, **kwargs):
 
@@ -212,7 +225,7 @@ class Driver:
                 self.e[..., int(self.n) // 2:], self.kT,
                 elphmod.occupations.fermi_dirac, self.mu)
 
-            self.f.d = (muc - muv) / (2 * self.kT)
+            self._d = (muc - muv) / (2 * self.kT)
             self.mu = (muc + muv) / 2
         else:
             self.mu = elphmod.occupations.find_Fermi_level(self.n,
-- 
2.43.0


From 2ebecca247816cb7295841a2428e04776fdb9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:50 +0000
Subject: [PATCH 31/65] fix: tiny density of states must not yield NaN force
 constants either

---
 elphmod/diagrams.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 1dc6139..8c8a363 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -527,10 +527,11 @@ def phonon_self_energy_fermi_shift(e, g, kT=0.025, occupations='fd'):
     d = occupations.delta(x) / kT
 
     dos = d.sum()
-    avg = np.einsum('ijkn,xijknn->x', d, g)
 
     if dos != 0:
-        avg /= dos
+        d /= dos
+
+    avg = np.einsum('ijkn,xijknn->x', d, g)
 
     return 2 / nk.prod() * dos * np.outer(avg, avg) # one complex conjugate?
 
-- 
2.43.0


From a2949b9446bf4c90387c4a925feb1876634d00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:51 +0000
Subject: [PATCH 32/65] fix: XCrySDen files must be written with first index
 fastest

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 817624f..eca0bfe 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -464,7 +464,7 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
                 text.write('%12.7f %11.7f %11.7f\n' % tuple(a[i]))
 
             if not only_header:
-                for i, value in enumerate(data.flat, 1):
+                for i, value in enumerate(data.T.flat, 1):
                     text.write('%13.5e' % value)
 
                     if not i % 6 or i == data.size:
-- 
2.43.0


From 1a8a39c5528d38a3ad7cf62f43388ecdfe142636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:51 +0000
Subject: [PATCH 33/65] fix: arrays must be read from ASCII files in Python 3

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 004e13f..5251e8f 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1619,7 +1619,7 @@ def read_data(filename):
     """Read array from ASCII file."""
 
     with open(filename) as text:
-        columns = text.next().split()
+        columns = next(text).split()
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-- 
2.43.0


From 35894d4a7beafa09b90e9ba04c76c5143cedea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:51 +0000
Subject: [PATCH 34/65] fix: single-band XML files must keep the dependence on
 k

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 5251e8f..e3abde6 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1528,7 +1528,7 @@ def write_xml_files(filename, data, angle=120, angle0=0):
         return
 
     if data.ndim == 4:
-        data = data[:, :, np.newaxis, np.newaxis, :, :]
+        data = data[..., np.newaxis, np.newaxis]
 
     nQ, nmodes, nk, nk, nbands, nbands = data.shape
 
-- 
2.43.0


From ec6b14408f75a55aab63730dc87b46fa788afdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:51 +0000
Subject: [PATCH 35/65] fix: Born effective charges must be read back from
 dynamical-matrix files

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 7162772..e6c97f9 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1407,7 +1407,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
                 data.write('\n')
 
             if dyn:
-                data.write('\n     Effective charges\n')
+                data.write('\n     Effective Charges E-U: Z_{alpha}{s,beta}\n')
 
             for na in range(len(zeu)):
                 if dyn:
-- 
2.43.0


From 689c6cc09c6364ad241c3c5be7b0454d53fd7529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:51 +0000
Subject: [PATCH 36/65] fix: atomic symbols of three characters must not be
 truncated

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index e6c97f9..ddc091e 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1176,7 +1176,7 @@ def read_flfrc(flfrc):
         for nt in range(ntyp):
             tmp = cells()
 
-            atm.append(tmp[1][1:3])
+            atm.append(tmp[1].strip("'"))
             amass[nt] = float(tmp[-1])
 
         # read types and positions of individual atoms:
-- 
2.43.0


From 6a03f0a998af52be95f10b781d853447f073397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:51 +0000
Subject: [PATCH 37/65] fix: isotopes must keep their masses in files with
 force constants

---
 elphmod/ph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index ddc091e..3a80244 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1316,8 +1316,9 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
     """
     dyn = isinstance(phid, tuple)
 
-    atm, amass = tuple(zip(*sorted(set(zip(atom_order, amass)),
-        key=lambda X: atom_order.index(X[0]))))
+    species = list(zip(atom_order, amass))
+    palette = sorted(set(species), key=species.index)
+    atm, amass = tuple(zip(*palette))
 
     with open(flfrc, 'w') as data:
         if dyn:
@@ -1353,7 +1354,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
         # write types and positions of individual atoms:
 
         for na in range(len(tau)):
-            data.write('%5d %4d' % (na + 1, atm.index(atom_order[na]) + 1))
+            data.write('%5d %4d' % (na + 1, palette.index(species[na]) + 1))
 
             for x in range(3):
                 data.write(' %17.10f' % (tau[na, x] / alat))
-- 
2.43.0


From 0331aeb166286592ab66e6efdf9001ebffcdd86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:40 +0000
Subject: [PATCH 38/65] fix: origin of grid must be read from Gaussian cube
 files

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index eca0bfe..1d9a043 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -280,11 +280,11 @@ def read_cube(cube, only_header=False, comm=comm):
         r0 = np.array(list(map(float, cols[1:4])))
     else:
         nat = None
+        r0 = np.empty(3, dtype=float)
 
     nat = comm.bcast(nat)
 
     n = np.empty(3, dtype=int)
-    r0 = np.empty(3, dtype=float)
     a = np.empty((3, 3), dtype=float)
     X = np.empty(nat, dtype=int)
     tau = np.empty((nat, 3), dtype=float)
-- 
2.43.0


From 2e3ef74df159ac53868823b35b4d0f31c0222e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 39/65] fix: strings in namelists must be recognized before
 comments are removed

---
 elphmod/misc.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 1d9a043..779d9ff 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -525,24 +525,22 @@ def read_namelists(filename):
     with open(filename) as data:
         text = data.read()
 
-    # remove comments:
-
-    text = re.sub(r'!.*$', '', text, flags=re.MULTILINE)
-
-    # protect string (which might contain spaces):
+    # remove comments and protect strings (which might contain spaces, slashes,
+    # exclamation marks, or quotation marks of the other kind):
 
     groups = []
 
     def replace(match):
+        if match.group(0).startswith('!'):
+            return ''
+
         groups.append(match.group(0))
         return '___%d___' % len(groups)
 
     def place(match):
         return groups[int(match.group(0).strip('_')) - 1]
 
-    count = 1
-    while count:
-        text, count = re.subn(r'\'[^\'"]*\'|"[^\'"]*"', replace, text)
+    text = re.sub(r'\'[^\'\n]*\'|"[^"\n]*"|!.*', replace, text)
 
     # parse all namelists:
 
@@ -573,9 +571,7 @@ def read_namelists(filename):
                     data[name][key].append(None)
 
             elif key is not None and item != '=':
-                count = 1
-                while count:
-                    item, count = re.subn(r'___\d+___', place, item)
+                item = re.sub(r'___\d+___', place, item)
 
                 if re.match(r'(\'.*\'|".*")$', item):
                     item = item[1:-1]
-- 
2.43.0


From eabeb85f3c67c00e1ee659fc991152708f6c6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 40/65] fix: slashes in strings do not end namelists in input
 for matdyn.x

---
 elphmod/bravais.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index d8dd9db..dc3f2ce 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2340,12 +2340,14 @@ def read_matdyn(filename):
     dict
         Input parameters.
     """
+    import re
+
     struct = elphmod.misc.read_input_data(filename, broadcast=False)
 
     if comm.rank == 0:
         with open(filename) as lines:
             for line in lines:
-                if '/' in line:
+                if '/' in re.sub(r'\'[^\']*\'|"[^"]*"|!.*', '', line):
                     for line in lines:
                         words = line.split()
                         if words:
-- 
2.43.0


From cb55c70f09271458476be9dce9ce24e4edfaeacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:04 +0000
Subject: [PATCH 41/65] fix: NumPy scalars must be written to input files as
 plain numbers

---
 elphmod/bravais.py | 12 ++++++++++++
 elphmod/misc.py    | 24 ++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index dc3f2ce..526f5c6 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1922,6 +1922,8 @@ def write_pwi(pwi, struct):
     if comm.rank != 0:
         return
 
+    struct = elphmod.misc.builtin(struct)
+
     with open(pwi, 'w') as data:
         data.write('&CONTROL\n')
 
@@ -2168,6 +2170,8 @@ def write_win(win, struct):
     if comm.rank != 0:
         return
 
+    struct = elphmod.misc.builtin(struct)
+
     with open(win, 'w') as data:
         for key in ['num_bands', 'num_wann']:
             if key in struct:
@@ -2262,6 +2266,8 @@ def write_ph(ph, struct):
     if comm.rank != 0:
         return
 
+    struct = elphmod.misc.builtin(struct)
+
     with open(ph, 'w') as data:
         data.write('&INPUTPH\n')
 
@@ -2318,6 +2324,8 @@ def write_q2r(q2r, struct):
     if comm.rank != 0:
         return
 
+    struct = elphmod.misc.builtin(struct)
+
     with open(q2r, 'w') as data:
         data.write('&INPUT\n')
 
@@ -2379,6 +2387,8 @@ def write_matdyn(matdyn, struct):
     if comm.rank != 0:
         return
 
+    struct = elphmod.misc.builtin(struct)
+
     with open(matdyn, 'w') as data:
         data.write('&INPUT\n')
 
@@ -2449,6 +2459,8 @@ def write_epw(epw, struct):
     if comm.rank != 0:
         return
 
+    struct = elphmod.misc.builtin(struct)
+
     with open(epw, 'w') as data:
         data.write('&INPUTEPW\n')
 
diff --git a/elphmod/misc.py b/elphmod/misc.py
index 779d9ff..39aca43 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -597,6 +597,30 @@ def read_namelists(filename):
 
     return data
 
+def builtin(value):
+    """Replace NumPy objects by built-in ones, whose representation is a literal.
+
+    Parameters
+    ----------
+    value : object
+        Number, array, or (nested) list, tuple, or dictionary thereof.
+
+    Returns
+    -------
+    object
+        Equivalent object without NumPy types.
+    """
+    if isinstance(value, (np.generic, np.ndarray)):
+        return value.tolist()
+
+    if isinstance(value, (list, tuple)):
+        return [builtin(item) for item in value]
+
+    if isinstance(value, dict):
+        return dict((key, builtin(item)) for key, item in value.items())
+
+    return value
+
 def read_input_data(filename, broadcast=True):
     """Read Quantum ESPRESSO input data.
 
-- 
2.43.0


From 26481874277cd655469ee2eba26c7613e506fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:04 +0000
Subject: [PATCH 42/65] fix: elements of arrays in input files must neither be
 dropped nor written as list

---
 elphmod/bravais.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 526f5c6..580e896 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1936,10 +1936,11 @@ def write_pwi(pwi, struct):
 
         data.write('&SYSTEM\n')
 
-        if 'celldm' in struct:
-            for i, celldm in enumerate(struct['celldm'], 1):
-                if celldm:
-                    data.write('celldm(%d) = %r\n' % (i, celldm))
+        for key in ['celldm', 'starting_magnetization']:
+            if isinstance(struct.get(key), list):
+                for i, value in enumerate(struct[key], 1):
+                    if value is not None:
+                        data.write('%s(%d) = %r\n' % (key, i, value))
 
         for key in ['ibrav', 'ntyp', 'nat', 'a', 'b', 'c', 'cosbc', 'cosac',
                 'cosab', 'ecutwfc', 'ecutrho', 'nbnd', 'occupations',
@@ -1947,7 +1948,7 @@ def write_pwi(pwi, struct):
                 'assume_isolated', 'nspin', 'noncolin', 'lspinorb',
                 'tot_magnetization', 'starting_magnetization', 'space_group',
                 'uniqueb', 'origin_choice', 'rhombohedral']:
-            if key in struct:
+            if key in struct and not isinstance(struct[key], list):
                 data.write('%s = %r\n' % (key, struct[key]))
 
         data.write('/\n')
@@ -2503,7 +2504,7 @@ def write_epw(epw, struct):
 
         if 'proj' in struct:
             for n, value in enumerate(struct['proj'], 1):
-                if value:
+                if value is not None:
                     data.write('proj(%d) = %r\n' % (n, value))
 
         data.write('\n')
@@ -2514,7 +2515,7 @@ def write_epw(epw, struct):
 
         if 'wdata' in struct:
             for n, value in enumerate(struct['wdata'], 1):
-                if value:
+                if value is not None:
                     data.write('wdata(%d) = %r\n' % (n, value))
 
         data.write('\n')
-- 
2.43.0


From 39834e75677c5e2d669e6926d31573329b18b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:27 +0000
Subject: [PATCH 43/65] fix: units in PWscf input may be omitted or surrounded
 by spaces and braces

---
 elphmod/bravais.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 580e896..9c2f6eb 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1819,6 +1819,8 @@ def read_pwi(pwi):
     dict
         Input data and crystal structure.
     """
+    import re
+
     struct = elphmod.misc.read_input_data(pwi, broadcast=False)
 
     if comm.rank == 0:
@@ -1828,12 +1830,13 @@ def read_pwi(pwi):
 
         with open(pwi) as lines:
             for line in lines:
-                words = [word for word in line.split() if word]
+                words = re.split('[!#]', line)[0].split()
 
                 if not words:
                     continue
 
                 key = words[0].lower()
+                unit = ''.join(words[1:]) # possibly with spaces within braces
 
                 if key == 'atomic_species':
                     struct['at_species'] = []
@@ -1848,11 +1851,7 @@ def read_pwi(pwi):
                         struct['pp'].append(words[2])
 
                 elif key == 'atomic_positions':
-                    if len(words) == 1:
-                        struct['coords'] = 'alat'
-                    else:
-                        struct['coords'] = ''.join(c for c in words[1].lower()
-                            if c not in '{ }')
+                    struct['coords'] = unit.lower().strip('{}') or 'alat'
 
                     print("Read crystal structure in units '%s'"
                         % struct['coords'])
@@ -1876,7 +1875,7 @@ def read_pwi(pwi):
                                 struct['r'][n, x] = float(words[1 + x])
 
                 elif key == 'k_points':
-                    struct['ktyp'] = words[1].lower()
+                    struct['ktyp'] = unit.lower() or 'tpiba'
 
                     if 'automatic' in struct['ktyp']:
                         struct[key] = list(map(int, next(lines).split()[:6]))
@@ -1891,10 +1890,7 @@ def read_pwi(pwi):
                 elif key == 'cell_parameters':
                     struct['r_cell'] = np.empty((3, 3))
 
-                    if len(words) == 1:
-                        struct['cell_units'] = 'bohr'
-                    else:
-                        struct['cell_units'] = words[1]
+                    struct['cell_units'] = unit or 'bohr'
 
                     print("Read cell parameters in units '%s'"
                         % struct['cell_units'])
-- 
2.43.0


From 7c4bebcf9c0e2e4df3009a9c75c6be59b9a9bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:27 +0000
Subject: [PATCH 44/65] fix: colons must be recognized as separators in
 Wannier90 input, as written

---
 elphmod/bravais.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 9c2f6eb..5a2a07c 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2034,14 +2034,14 @@ def read_win(win):
     dict
         Crystal structure.
     """
+    import re
+
     if comm.rank == 0:
         struct = dict()
 
         with open(win) as lines:
             for line in lines:
-                words = [word
-                    for column in line.split()
-                    for word in column.split('=') if word]
+                words = re.sub('[=:]', ' ', line).split()
 
                 if not words:
                     continue
-- 
2.43.0


From b8710a6b54f9a0812f1c25f4ea99280b3c980792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:27 +0000
Subject: [PATCH 45/65] fix: blocks in Wannier90 input may occur in any order

---
 elphmod/bravais.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 5a2a07c..911882c 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2139,12 +2139,19 @@ def read_win(win):
                                 struct['atoms'][n, x] = float(tmp[n][1 + x])
 
                     elif words[1] == 'kpoints':
-                        nk = int(np.prod(mp_grid))
-                        struct['kpoints'] = np.zeros((nk, 4))
+                        kpoints = []
 
-                        for n in range(nk):
+                        while True:
                             words = next(lines).split()
 
+                            if words[0] == 'end':
+                                break
+
+                            kpoints.append(words)
+
+                        struct['kpoints'] = np.zeros((len(kpoints), 4))
+
+                        for n, words in enumerate(kpoints):
                             for x in range(len(words)):
                                 struct['kpoints'][n, x] = float(words[x])
     else:
-- 
2.43.0


From 11facdcd4a14ed9cc0a762b899f989144fa2091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:27 +0000
Subject: [PATCH 46/65] fix: Wannier90 input without projections or path must
 be written, with plot option

---
 elphmod/bravais.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 911882c..dfb9494 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2190,7 +2190,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['proj']:
+        if struct.get('proj'):
             data.write('begin projections\n')
             for key, value in struct['proj'].items():
                 data.write('%s: %s\n' % (key, value))
@@ -2198,7 +2198,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        for key in ['write_hr', 'bands_plot']:
+        for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
                 data.write('%s = %r\n' % (key, struct[key]))
 
@@ -2210,7 +2210,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['kpoint_path']:
+        if struct.get('kpoint_path'):
             data.write('begin kpoint_path\n')
             for line in struct['kpoint_path']:
                 data.write('%s\n' % line)
-- 
2.43.0


From 75c18bdfdc39f942017f9d94858dfefba518107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:48 +0000
Subject: [PATCH 47/65] fix: number of k points in PWscf input may be followed
 by comment

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index dfb9494..74577ae 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1880,7 +1880,7 @@ def read_pwi(pwi):
                     if 'automatic' in struct['ktyp']:
                         struct[key] = list(map(int, next(lines).split()[:6]))
                     elif 'gamma' not in struct['ktyp']:
-                        struct['nks'] = int(next(lines))
+                        struct['nks'] = int(next(lines).split()[0])
                         struct[key] = np.empty((struct['nks'], 4))
 
                         for n in range(struct['nks']):
-- 
2.43.0


From 250f18e7daff81348b20b60bf0c7bd30b15f29e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:13 +0000
Subject: [PATCH 48/65] fix: sample all reciprocal lattice vectors within
 cutoff for skewed cells

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 3a80244..61789ff 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -374,7 +374,7 @@ class Model:
         self.scale = 4 * self.alpha * (2 * np.pi / a) ** 2
 
         nr = 1 + (np.sqrt(self.scale * G_max)
-            / np.linalg.norm(2 * np.pi * self.b, axis=1)).astype(int)
+            * np.linalg.norm(self.a, axis=1) / (2 * np.pi)).astype(int)
 
         if self.lr2d or G_2d:
             nr[2] = 0
-- 
2.43.0


From b478f4588bd3d9feeb913f0aed3f4c63ade97db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:12 +0000
Subject: [PATCH 49/65] fix: apply acoustic sum rule of zone-centre force
 constants at all q points

Driver.hessian(gamma_only=False, apply_asr_simple=True) subtracted the row sums
of the force constants at each q point separately, while Eq. 81 of Gonze and Lee
(and the real-space correction) refers to those at q = 0.
---
 elphmod/md.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 52ab30d..543521a 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -444,10 +444,10 @@ class Driver:
         if apply_asr_simple:
             C = C.reshape((nq, self.elph.ph.nat, 3, self.elph.ph.nat, 3))
 
-            corr = C.sum(axis=3)
+            corr = C[0].sum(axis=2).real
 
             for na in range(self.elph.ph.nat):
-                C[:, na, :, na, :] -= corr[:, na]
+                C[:, na, :, na, :] -= corr[na]
 
             C = C.reshape((nq, self.elph.ph.size, self.elph.ph.size))
 
-- 
2.43.0


From 029a1db387bb7d23e40eb921a8a44ef77b297357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:12 +0000
Subject: [PATCH 50/65] fix: apply acoustic sum rule to couplings before
 division by masses

With divide_mass, elph.Model.asr made the sum of mass-divided couplings vanish,
which for different masses is not the coupling to acoustic phonons.
---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index e3abde6..f7d04a4 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -692,6 +692,10 @@ class Model:
         if comm.rank == 0:
             shape = self.data.shape
 
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] *= np.sqrt(self.ph.M[x // 3])
+
             self.data = self.data.reshape((len(self.Rg) * self.ph.nat, -1))
 
             zero = self.data.sum(axis=0)
@@ -712,6 +716,10 @@ class Model:
 
             self.data = self.data.reshape(shape)
 
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] /= np.sqrt(self.ph.M[x // 3])
+
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
-- 
2.43.0


From 93476f30d870c698d3aa573a5e45fbdbaba65ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 51/65] fix: count intersections of isolines on the edge of the
 mesh only once

double_delta found points on the edge of the mesh in triangles on both sides but
did not identify them, so that the integral depended on the choice of the origin.
---
 elphmod/dos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 431dc7d..f95612f 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -275,6 +275,11 @@ def double_delta(x, y, f=None, eps=1e-7):
         unique = dict()
 
         if comm.rank == 0:
+            # identify points on opposite edges of the mesh:
+
+            D %= N
+            D[N - D < eps] -= N
+
             for group in elphmod.misc.group(D, eps=eps):
                 d = np.average(D[group], axis=0)
                 w = np.average(W[group], axis=0)
-- 
2.43.0


From 200199270b05767a1fcdf908bec0f205c2601b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 52/65] fix: isolines along edges of the mesh

isoline failed with a TypeError if the energy equalled that of two neighbouring
mesh points below the third point of a triangle.
---
 elphmod/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index f95612f..fb8cd8c 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -354,7 +354,7 @@ def isoline(energies):
 
             elif B <= E < C:
                 if E == A == B:
-                    my_points.extend((tuple(i), (j)))
+                    my_points.append((tuple(i), tuple(j)))
                 else:
                     alpha = (E - B) / (C - B)
                     beta = (E - A) / (C - A)
-- 
2.43.0


From 9a6bb1663fae8b95461a3ed518aef401dad4ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:23 +0000
Subject: [PATCH 53/65] fix: assign couplings to the right pair of states in
 McMillan with tetra=True

---
 elphmod/eliashberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/eliashberg.py b/elphmod/eliashberg.py
index 6401a42..162ea7b 100644
--- a/elphmod/eliashberg.py
+++ b/elphmod/eliashberg.py
@@ -120,7 +120,7 @@ def McMillan(nq, e, w2, g2, eps=1e-10, mustar=0.0, tetra=False, kT=0.025,
                         E[:, :, m])(0)
 
                     for (k1, k2), weight in intersections.items():
-                        g2dd[iq] += weight * g2_fun(k1, k2)[:, n, m]
+                        g2dd[iq] += weight * g2_fun(k1, k2)[:, m, n]
                         dd[iq] += weight
 
         N0 = 0
-- 
2.43.0


From 6241585fad403b608b1d48185c767c59992f0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:23 +0000
Subject: [PATCH 54/65] fix: infinite values of Heaviside delta function for
 integer arguments

---
 elphmod/occupations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index 85aa34f..0b97e7f 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -301,7 +301,7 @@ def heaviside(x):
 def heaviside_delta(x):
     """Calculate negative derivative of (reflected) Heaviside function."""
 
-    delta = np.copy(x)
+    delta = np.array(x, dtype=float)
 
     zero = delta == 0
 
@@ -313,7 +313,7 @@ def heaviside_delta(x):
 def heaviside_delta_prime(x):
     """Calculate negative 2nd derivative of (reflected) Heaviside function."""
 
-    delta_prime = np.copy(x)
+    delta_prime = np.array(x, dtype=float)
 
     zero = delta_prime == 0
 
-- 
2.43.0


From 940cdb4b45d349f138ed143b037dc8a918b5b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:13 +0000
Subject: [PATCH 55/65] fix: read band plot with a single point

---
 elphmod/el.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index d3b1a28..3cb6073 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -929,7 +929,7 @@ def read_bands_plot(filbandgnu, bands):
     ndarray
         Band energies.
     """
-    k, e = np.loadtxt(filbandgnu).T
+    k, e = np.loadtxt(filbandgnu, ndmin=2).T
 
     points = k.size // bands
 
-- 
2.43.0


From 9a6bc60e2d7381592b019ab9b9fdbe0c7adfbb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:13 +0000
Subject: [PATCH 56/65] fix: PW output with highest occupied or without any
 Fermi level

---
 elphmod/el.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 3cb6073..4976cc4 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1325,7 +1325,7 @@ def read_Fermi_level(pw_scf_out):
 def read_pwo(pw_scf_out):
     """Read energies from PW output file."""
 
-    Ne = Ns = Nk = E = None
+    Ne = Ns = Nk = E = eF = None
     e_given = False
 
     if comm.rank == 0:
@@ -1346,6 +1346,9 @@ def read_pwo(pw_scf_out):
                 elif 'highest occupied, lowest unoccupied level' in line:
                     eF = sum(map(float, line.split()[-2:])) / 2
 
+                elif 'highest occupied level' in line:
+                    eF = float(line.split()[-1])
+
                 elif line.startswith('!'):
                     E = float(line.split()[-2]) * elphmod.misc.Ry
 
@@ -1368,8 +1371,11 @@ def read_pwo(pw_scf_out):
                     except ValueError:
                         pass
 
-        if e_given and eF is not None:
-            e = np.array(e) - eF
+        if e_given:
+            e = np.array(e)
+
+            if eF is not None:
+                e -= eF
 
     Ne = comm.bcast(Ne)
     Ns = comm.bcast(Ns)
-- 
2.43.0


From 1ae65e91248e5830316af278329a661c93095fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:13 +0000
Subject: [PATCH 57/65] fix: allow for band subsets given as array

---
 elphmod/el.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4976cc4..50630cb 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1566,7 +1566,7 @@ def eband(pw_scf_out, subset=None):
     nk, nbnd = energies.shape
     eband = np.zeros(energies.shape)
 
-    if subset == None:
+    if subset is None:
         for ik in range(nk):
             # weights wk
             wk = kpoints[ik, 3]
@@ -1606,7 +1606,7 @@ def demet_from_qe_pwo(pw_scf_out, subset=None):
 
     f = elphmod.occupations.smearing(smearing_type)
 
-    if subset == None:
+    if subset is None:
         for ik in range(nk):
             wk = kpoints[ik, 3]
             for iband in range(nbnd):
-- 
2.43.0


From f187593c401056cc4559db06e569f922842c782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:13 +0000
Subject: [PATCH 58/65] fix: charge density on other than hexagonal or
 tetragonal lattices

---
 elphmod/el.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 50630cb..e711637 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1817,9 +1817,8 @@ def read_pp_density(filename):
         kin_energy_cutoff = float(tmp[2])
 
         # calculate unit cell and brillouin zone volume
-        A = elphmod.bravais.primitives(ibrav)
-        A[2, 2] = celldm[2]
-        uc_volume = np.linalg.det(A) * celldm[0] ** 3
+        A = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True)
+        uc_volume = abs(np.linalg.det(A))
 #        B1, B2, B3 = elphmod.bravais.reciprocals(*A)
 #        B = np.stack((B1, B2, B3), axis=0)
 #        print(B)
-- 
2.43.0


From decd4c5ef1538322f3bd316bb39af2e687f5be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:13 +0000
Subject: [PATCH 59/65] fix: charge density if number of grid points is not
 divisible by five

---
 elphmod/el.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index e711637..65d60a8 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1838,10 +1838,11 @@ def read_pp_density(filename):
         # read rho table
         # total number of real-space grid points:
         nr_points = np.prod(FFT_dim[:3])
-        # separated into columns of 5:
-        if divmod(nr_points, 5)[1] != 0:
-            print('Warning: Total number of grid points is not divisible by 5!')
-        rho = table(divmod(nr_points, 5)[0])
+        # separated into columns of 5 (last row may be shorter):
+        rho = []
+        while len(rho) < nr_points:
+            rho.extend(map(float, cells()))
+        rho = np.array(rho)
 
         tot_charge = rho.sum() / nr_points * uc_volume
 
-- 
2.43.0


From 3c88d4a9aaf44fbb7c60426313c026ef29058442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:13 +0000
Subject: [PATCH 60/65] fix: skip couplings of bands below offset

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index f7d04a4..bb63da3 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1162,7 +1162,7 @@ def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
                 ibnd -= offset
                 jbnd -= offset
 
-                if ibnd >= bands or jbnd >= bands:
+                if not (0 <= ibnd < bands and 0 <= jbnd < bands):
                     continue
 
                 indices = n, nu, k1, k2, ibnd, jbnd
-- 
2.43.0


From 5a42f3f91c4156501fd1e362ecde70f5065cbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:13 +0000
Subject: [PATCH 61/65] fix: apply universal scaling factor from POSCAR

---
 elphmod/bravais.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 74577ae..e11c926 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2571,9 +2571,9 @@ def readPOSCAR(filename):
 
         a = float(next(POSCAR))
 
-        t1 = np.array(list(map(float, next(POSCAR).split())))
-        t2 = np.array(list(map(float, next(POSCAR).split())))
-        t3 = np.array(list(map(float, next(POSCAR).split())))
+        t1 = a * np.array(list(map(float, next(POSCAR).split())))
+        t2 = a * np.array(list(map(float, next(POSCAR).split())))
+        t3 = a * np.array(list(map(float, next(POSCAR).split())))
 
         elements = next(POSCAR).split()
 
-- 
2.43.0


From 8da351b0a048ea7d068233c4a10ac6902a45fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:13 +0000
Subject: [PATCH 62/65] fix: read POSCAR without selective dynamics

---
 elphmod/bravais.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index e11c926..3c758fc 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2579,8 +2579,8 @@ def readPOSCAR(filename):
 
         numbers = list(map(int, next(POSCAR).split()))
 
-        next(POSCAR)
-        next(POSCAR)
+        if next(POSCAR).strip()[:1] in {'S', 's'}: # selective dynamics
+            next(POSCAR)
 
         atoms = dict()
 
-- 
2.43.0


From f8a24332bcd4a35745590940e306920698370c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 63/65] fix: elph.sample must not square the array returned by
 the coupling function in place

---
 elphmod/elph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index bb63da3..149a97a 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -923,8 +923,7 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
                             gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                         if squared:
-                            gqk *= gqk.conj()
-                            gqk = gqk.real
+                            gqk = (gqk * gqk.conj()).real
 
                         my_g[my_iq, :, K1, K2, K3, :, :] = gqk
 
-- 
2.43.0


From 85c8de28958904aff4255b7cb6970f2d95fed6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:52 +0000
Subject: [PATCH 64/65] fix: phases of dynamical matrix of graphene must match
 mass-spring model off the mesh

---
 elphmod/models/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/models/graphene.py b/elphmod/models/graphene.py
index a7aadf6..de6db04 100644
--- a/elphmod/models/graphene.py
+++ b/elphmod/models/graphene.py
@@ -75,7 +75,7 @@ def dynamical_matrix(q1=0, q2=0, q3=0):
 
     C = np.empty((6, 6), dtype=complex)
 
-    C[3:, :3] = K1 * np.exp(1j * q1) + K2 + K3 * np.exp(-1j * q2)
+    C[3:, :3] = K1 * np.exp(-1j * q1) + K2 + K3 * np.exp(1j * q2)
     C[:3, :3] = (L1 * np.exp(1j * q1) + L2 * np.exp(1j * q2)
         + L3 * np.exp(-1j * (q1 + q2)))
     C[:3, :3] += C[:3, :3].conj()
-- 
2.43.0


From 4628fa469ec231aec6aa5a530358f1f546fcf81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:16 +0000
Subject: [PATCH 65/65] fix: ph.Model.decay must not rely on lengths from
 before changes of the model

---
 elphmod/ph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 61789ff..2bd75ac 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -924,7 +924,9 @@ class Model:
         ndarray
             Frobenius norm of force-constant matrices.
         """
-        l = self.l.flatten()
+        l = np.linalg.norm((self.R @ self.a)[:, np.newaxis, np.newaxis]
+            + self.r[np.newaxis, np.newaxis, :]
+            - self.r[np.newaxis, :, np.newaxis], axis=3).flatten()
         C = np.linalg.norm(self.data.reshape((len(self.R),
             self.nat, 3, self.nat, 3)), ord='fro', axis=(2, 4)).flatten()
 
-- 
2.43.0

