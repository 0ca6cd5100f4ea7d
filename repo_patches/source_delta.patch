From 577d4235bd2b3c953935c9d92af735004deee189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 01/38] fix: links through a periodic side and a wall of the
 box reach the wall

In a corner of the box between a periodic side and a wall, the diagonal
links cross both sides at the same distance: the first side of the loop won,
so with periodic x and walls in y the corner links were labelled periodic
and no boundary condition was applied to them.
---
 pylbm/domain.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index eae2ae4..14aa8dd 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -479,9 +479,17 @@ class Domain:
         if self.compute_normal:
             norm_view = self.normal[tuple(phys_domain_vect)]
 
-        def new_indices(dvik, iuv, indices, dist_view):
+        def new_indices(dvik, iuv, indices, labelk):
             new_ind = copy.deepcopy(indices)
-            ind = np.where(dist_view[tuple(indices)] > dvik)
+            mask = dist_view[tuple(indices)] > dvik
+            # a periodic side is not a border: the links that cross it
+            # and another side of the box have to reach the other side
+            periodic = flag_view[tuple(indices)] == -1
+            if labelk == -1:
+                mask &= periodic | (flag_view[tuple(indices)] == self.valin)
+            else:
+                mask |= periodic
+            ind = np.where(mask)
             i = 1
             for j in range(self.dim):
                 if j != iuv:
@@ -502,7 +510,7 @@ class Domain:
                     for i in range(-vk):
                         indices[iuvel + 1] = i
                         dvik = -(i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(dvik, iuvel, indices, label[2 * iuvel])
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel]
                         if self.compute_normal:
@@ -512,7 +520,7 @@ class Domain:
                     for i in range(vk):
                         indices[iuvel + 1] = -i - 1
                         dvik = (i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(dvik, iuvel, indices, label[2 * iuvel + 1])
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel + 1]
                         if self.compute_normal:
-- 
2.43.0


From 411ec06f7cf0ca9e74e21763f4771a57b918a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 02/38] fix: conserved moments given in another order than in
 the equilibrium

The rows are swapped one after the other to put the conserved moments in
front, but the indices of the swaps were those of the initial order: with
several conserved moments not listed in the order of the equilibria, a
later swap moved a moment already placed.
---
 pylbm/scheme.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 5b2cff4..8877786 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -224,8 +224,13 @@ class Scheme:
 
     def _permute_consm_in_front(self):
         self.permutations = []
+        # position[i] is the current place of the ith moment of the scheme entry
+        position = list(range(len(self.EQ)))
         for ic, c in enumerate(self.consm.values()):
-            self.permutations.append([ic, c])
+            p = position[c]
+            self.permutations.append([ic, p])
+            i = position.index(ic)
+            position[i], position[c] = p, ic
 
         for p in self.permutations:
             self.EQ.row_swap(p[0], p[1])
-- 
2.43.0


From fff4c319b59a2f3db680d2f2cd334f5a910088a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:06 +0000
Subject: [PATCH 03/38] fix: the width of the halo is the largest velocity in
 norm

vmax took the largest signed component: with a stencil that is not
symmetric the halo was too small for the negative velocities.
---
 pylbm/stencil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 38cb783..56ef404 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -715,8 +715,8 @@ class Stencil(list):
     @property
     def vmax(self):
         """the maximal velocity in norm for each spatial direction."""
-        tmp = np.asarray([self.uvx, self.uvy, self.uvz])
-        return np.max(tmp[: self.dim], axis=1)
+        tmp = np.asarray([self.uvx, self.uvy, self.uvz][: self.dim])
+        return np.max(np.abs(tmp), axis=1)
 
     @property
     def vmin(self):
-- 
2.43.0


From 727c740551603719989b9c185f017a8e9e0ea527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 04/38] fix: stencils without velocity in a direction of space

The interior coordinates of the domain were reduced to one point, the
interior view of the arrays was empty, and the creation of the simulation
failed on an empty MPI subarray.
---
 pylbm/domain.py  |  2 +-
 pylbm/storage.py | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 14aa8dd..11b7b0b 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -434,7 +434,7 @@ class Domain:
         # modification to avoid the case
         # with no velocity in one direction
         ind_beg = [k for k in halo_size]
-        ind_end = [-k if k > 0 else 1 for k in halo_size]
+        ind_end = [-k if k > 0 else None for k in halo_size]
         self.coords = [
             # self.coords_halo[k][halo_size[k]:-halo_size[k]]
             self.coords_halo[k][ind_beg[k] : ind_end[k]]
diff --git a/pylbm/storage.py b/pylbm/storage.py
index 2cf7e47..c9403fa 100644
--- a/pylbm/storage.py
+++ b/pylbm/storage.py
@@ -147,7 +147,7 @@ class Array:
     def _in(self, key):
         ind = []
         for vmax in self.vmax:
-            ind.append(slice(vmax, -vmax))
+            ind.append(slice(vmax, -vmax if vmax > 0 else None))
         ind = np.asarray(ind)
 
         if self.gpu_support:
@@ -246,6 +246,11 @@ class Array:
         self.recv_type = []
 
         for d in range(dim):  # pylint: disable=invalid-name
+            if vmax[d] == 0:  # no velocity in this direction: nothing to exchange
+                self.send_type.extend([None, None])
+                self.recv_type.extend([None, None])
+                continue
+
             subsizes = [nv] + nspace
             subsizes[d + 1] = vmax[d]
             subsizes = swap(subsizes)
@@ -299,8 +304,9 @@ class Array:
             )
 
         for send, recv in zip(self.send_type, self.recv_type):
-            send.Commit()
-            recv.Commit()
+            if send is not None:
+                send.Commit()
+                recv.Commit()
 
     # pylint: disable=possibly-unused-variable
     @monitor
@@ -332,6 +338,9 @@ class Array:
 
         else:
             for d in range(self.dim):  # pylint: disable=invalid-name
+                if self.vmax[d] == 0:
+                    continue
+
                 req = []
 
                 req.append(
-- 
2.43.0


From cd36b6b7f5b5a40265e61f5e75c447705aa64b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 05/38] fix: evaluate the source terms of coupled moments with
 the same state

The explicit Euler steps were made moment by moment in place: the source of
a conserved moment used the values already updated of the previous ones, so
that the result depended on the order of the conserved moments.
---
 pylbm/algorithm/base.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 559b090..8ba7f9a 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -152,6 +152,7 @@ class BaseAlgorithm:
         self.vmax = [0] * 3
         self.vmax[: scheme.dim] = scheme.stencil.vmax
         self.local_vars = self.symb_coord_local[: self.dim]
+        self.source_vars = []
         self.settings = settings if settings else {}
 
     def _get_space_idx_full(self):
@@ -492,7 +493,21 @@ class BaseAlgorithm:
                 rhs_eq[lhs.i] = dummy.rhs.subs(ind_to_subs)
             else:
                 rhs_eq[lhs.i] = dummy.rhs
-        return [Eq(m, sp.Matrix(rhs_eq))]
+
+        # the source terms have to be evaluated with the same moments: store
+        # in local variables those which use a moment modified before
+        code, modified = [], []
+        for i, mi in enumerate(m):
+            if rhs_eq[i] == mi:
+                continue
+            if any(rhs_eq[i].has(mj) for mj in modified):
+                local_var = sp.Symbol("source_%d" % i, real=True)
+                if local_var not in self.source_vars:
+                    self.source_vars.append(local_var)
+                code.append(Eq(local_var, rhs_eq[i]))
+                rhs_eq[i] = local_var
+            modified.append(mi)
+        return [*code, Eq(m, sp.Matrix(rhs_eq))]
 
     def source_term(self):
         """
@@ -501,7 +516,8 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_inner()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.source_term_local(m))}
+        code = For(space_index, self.source_term_local(m))
+        return {"code": code, "local_vars": self.source_vars}
 
     def one_time_step_local(self, f, fnew, m):
         """
@@ -586,7 +602,10 @@ class BaseAlgorithm:
         else:
             loop = lambda x: For(space_index, x)
 
-        if split:
+        local_vars.extend(self.source_vars)
+
+        # the local variables are only known inside a loop
+        if split and not self.source_vars:
             # code = [loop([*self.coords(), i]) for i in internal]
             code = [loop([i]) for i in internal]
         else:
-- 
2.43.0


From 790ac4af94391eb727769c3d5a87aaaed3a2e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 06/38] fix: the relative velocity with the setting split

The relative velocity is a local variable of the loop over the cells: in the
compiled code split into several loops, each cell used the value of the last one.
---
 pylbm/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 8ba7f9a..0b5ed58 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -605,7 +605,7 @@ class BaseAlgorithm:
         local_vars.extend(self.source_vars)
 
         # the local variables are only known inside a loop
-        if split and not self.source_vars:
+        if split and not self.rel_vel_symb and not self.source_vars:
             # code = [loop([*self.coords(), i]) for i in internal]
             code = [loop([i]) for i in internal]
         else:
-- 
2.43.0


From 85bf7cf2af3f283b5daa536bd6c488c3d81bcc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 07/38] fix: the relative velocity with source terms and with
 the base algorithm

The conserved moments restored after the relaxation were computed from the
distribution functions, so the first half of the source terms was lost, and
the second one was applied in the moving frame. The base algorithm did not
restore them at all.
---
 pylbm/algorithm/base.py | 39 +++++++++++++++++++++++++++++++++++++--
 pylbm/algorithm/pull.py |  6 +++---
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 0b5ed58..9980dac 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -153,6 +153,7 @@ class BaseAlgorithm:
         self.vmax[: scheme.dim] = scheme.stencil.vmax
         self.local_vars = self.symb_coord_local[: self.dim]
         self.source_vars = []
+        self.relative_vars = []
         self.settings = settings if settings else {}
 
     def _get_space_idx_full(self):
@@ -254,6 +255,21 @@ class BaseAlgorithm:
         return [Eq(self.rel_vel_symb[i], rel_vel[i]) for i in range(self.dim)]
 
     def restore_conserved_moments(self, m, f):
+        """
+        Return the symbolic expressions which give the conserved moments in the
+        moving frame. The collision keeps them: only the source terms, applied
+        on the moments in the fixed frame, modify them.
+
+        Parameters
+        ----------
+
+        m : SymPy Matrix
+            indexed objects for the moments
+
+        f : SymPy Matrix
+            indexed objects for the distributed functions
+
+        """
         nconsm = len(self.consm)
 
         if isinstance(m[nconsm:], list):
@@ -261,7 +277,19 @@ class BaseAlgorithm:
         else:
             m_consm = m[:nconsm]
 
-        return Eq(m_consm, sp.Matrix((self.Mu * f)[:nconsm]))
+        m_rel = sp.Matrix((self.Mu * f)[:nconsm])
+        if not self.source_eq:
+            return [Eq(m_consm, m_rel)]
+
+        m_cons = sp.Matrix([m[i] for i in range(nconsm)])
+        source = m_cons - sp.Matrix((self.M * f)[:nconsm])
+        local_vars = sp.symbols("rel_m:%d" % nconsm, real=True)
+        self.relative_vars = list(local_vars)
+        m_rel += sp.Matrix(self.Tu[:nconsm, :nconsm]) * source
+        return [
+            Eq(sp.Matrix(local_vars), m_rel),
+            Eq(m_consm, sp.Matrix(local_vars)),
+        ]
 
     def coords(self):
         coord = []
@@ -426,6 +454,10 @@ class BaseAlgorithm:
             eq = SymbolicVector(eq)
         relax = (1 - self.s) * m + self.s * eq
         alltogether(relax)
+        if with_rel_velocity:
+            # the conserved moments are not relaxed
+            nconsm = len(self.consm)
+            return Eq(sp.Matrix(m[nconsm:]), sp.Matrix(relax[nconsm:]))
         return Eq(m, relax)
 
     def relaxation(self):
@@ -561,6 +593,9 @@ class BaseAlgorithm:
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
+        if with_rel_velocity:
+            code.extend(self.restore_conserved_moments(m, fnew))
+
         code.append(self.m2f_local(m, fnew, with_rel_velocity))
         return code
 
@@ -602,7 +637,7 @@ class BaseAlgorithm:
         else:
             loop = lambda x: For(space_index, x)
 
-        local_vars.extend(self.source_vars)
+        local_vars.extend(self.source_vars + self.relative_vars)
 
         # the local variables are only known inside a loop
         if split and not self.rel_vel_symb and not self.source_vars:
diff --git a/pylbm/algorithm/pull.py b/pylbm/algorithm/pull.py
index ab33a0f..698e0d9 100644
--- a/pylbm/algorithm/pull.py
+++ b/pylbm/algorithm/pull.py
@@ -48,12 +48,12 @@ class PullAlgorithm(BaseAlgorithm):
 
         code.append(self.relaxation_local(m, with_rel_velocity))
 
-        if with_rel_velocity:
-            code.append(self.restore_conserved_moments(m, f))
-
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
+        if with_rel_velocity:
+            code.extend(self.restore_conserved_moments(m, f))
+
         code.append(self.m2f_local(m, fnew, with_rel_velocity))
 
         return code
-- 
2.43.0


From 19c8bb55afff96464f3d679ebd157c9e0672a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 08/38] fix: the bounds of the cylinders

The axis of a cylinder goes from -w to w around its center, but the bounds
only took half of it: a Domain ignored the cells of the rest.
---
 pylbm/elements/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index d458b59..75854fc 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -59,7 +59,7 @@ class Cylinder(Element):
             minimal box where the cylinder is included
 
         """
-        lw = [0.5 * abs(self.w[k]) for k in range(len(self.w))]
+        lw = np.abs(self.w)
         bounds_base = self.base.get_bounds()
         return bounds_base[0] - lw, bounds_base[1] + lw
 
-- 
2.43.0


From 182ec04862d1fc7535e494eeeebefd14d7dba2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 09/38] fix: the normal vectors and the default arguments of
 the distance to a cylinder

The normal vectors were not unit vectors, they were transformed as directions
and not as normals, and those of the bottom and of the top did not depend on
the side from which they are seen. With the default arguments (dmax=None or
normal=False) the method failed or returned NaN.
---
 pylbm/elements/cylinder.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index 75854fc..addf43e 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -129,6 +129,8 @@ class Cylinder(Element):
             the coordinates of the normal vectors
             if normal is True
         """
+        if dmax is None:
+            dmax = np.inf
         x, y, z = grid
 
         # rewritte the coordinates in the frame of the cylinder
@@ -195,24 +197,26 @@ class Cylinder(Element):
         border[ind] = self.label[-1]
         normal_cyl_x[ind] = 0.0
         normal_cyl_y[ind] = 0.0
-        normal_cyl_z[ind] = 1.0
+        normal_cyl_z[ind] = -np.sign(v_cyl[2])
         # fix the bottom
         ind = alpha == alpha_bot
         border[ind] = self.label[-2]
         normal_cyl_x[ind] = 0.0
         normal_cyl_y[ind] = 0.0
-        normal_cyl_z[ind] = -1.0
+        normal_cyl_z[ind] = -np.sign(v_cyl[2])
         # fix the distance
         alpha[alpha == 1.0e16] = -1.0
-        # rewritte the normal vector in the initial frame
-        normal_vect = np.zeros(normal_cyl.shape)
-        for k in range(3):
-            normal_vect[..., k] = (
-                self.A[k, 0] * normal_cyl_x
-                + self.A[k, 1] * normal_cyl_y
-                + self.A[k, 2] * normal_cyl_z
-            )
-
+        border[alpha < 0] = -1
+        if not normal:
+            return alpha, border, None
+
+        # rewritte the normal vector in the initial frame: a normal vector
+        # is transformed by the transpose of the inverse of the matrix A
+        normal_cyl[alpha < 0] = 0
+        normal_vect = normal_cyl.dot(self.iA)
+        norm_normal = np.linalg.norm(normal_vect, axis=-1, keepdims=True)
+        norm_normal[norm_normal == 0] = 1.0
+        normal_vect /= norm_normal
         return alpha, border, normal_vect
 
     def __str__(self):
-- 
2.43.0


From 4be8e295ef181fd4aef517eff54d21566f1bd787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:43 +0000
Subject: [PATCH 10/38] fix: links of a Domain with several elements

- a solid element crossed before another one was ignored if it was added
  before it,
- the cells of a fluid element next to a side of the box lost their link to
  this side, and the part of a solid element covered by a fluid one could
  still be reached.
---
 pylbm/domain.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 11b7b0b..e0b7590 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -294,10 +294,17 @@ class Domain:
 
         # compute the distance and the flag for the primary box
         self.__add_init(self.box_label)
+        # the links to the box, for the fluid elements which put them back
+        self.box_links = (
+            self.distance.copy(),
+            self.flag.copy(),
+            self.normal.copy() if self.compute_normal else None,
+        )
         for elem in self.geom.list_elem:
             # treat each element of the geometry
             self.__add_elem(elem)
 
+        del self.box_links
         self.clean()
         log.info(self.__str__())
 
@@ -589,7 +596,9 @@ class Domain:
                 # between a fluid cell and the border of the element
                 # with the vk velocity
                 indx = np.logical_and(alpha > 0, ind_fluid)
-                if out_cells.size != 0:
+                # a solid element may be crossed before another one added
+                # after it: the links to the fluid are removed in clean
+                if elem.isfluid and out_cells.size != 0:
                     indx = np.logical_and(indx, out_cells)
 
                 if elem.isfluid:
@@ -627,6 +636,25 @@ class Domain:
                     for i in range(self.dim):
                         norm_view[k][tuple(ind + [i])] = -normvect[tuple(ind + [i])]
 
+                if elem.isfluid:
+                    # the links which stay in the fluid element up to their end
+                    ind = np.logical_and(
+                        ind_fluid, np.logical_or(alpha <= 0, alpha > 1)
+                    )
+                    dist_view[k][ind] = self.valin
+                    flag_view[k][ind] = self.valin
+                    # the cells of the fluid element linked to the box
+                    box_dist, box_flag, box_norm = self.box_links
+                    box_dist = box_dist[tuple(total_slice)][k]
+                    box_flag = box_flag[tuple(total_slice)][k]
+                    closer = np.logical_and(ind_fluid, box_dist < dist_view[k])
+                    ind = np.logical_and(closer, box_flag != -1)
+                    dist_view[k][ind] = box_dist[ind]
+                    flag_view[k][ind] = box_flag[ind]
+                    if self.compute_normal:
+                        box_norm = box_norm[tuple(total_slice_vect)][k]
+                        norm_view[k][ind] = box_norm[ind]
+
     def clean(self):
         """
         clean the domain when multiple elements are added
@@ -637,6 +665,13 @@ class Domain:
         # fix these points to full outer points
         for k in range(self.stencil.unvtot):
             indk = np.logical_and(self.distance[k] > 0, self.in_or_out == self.valout)
+            # the links between two fluid cells
+            neighbor = np.full(self.in_or_out.shape, self.valout)
+            vk = self.stencil.unique_velocities[k].v
+            src = tuple(slice(max(-v, 0), n - max(v, 0)) for v, n in zip(vk, neighbor.shape))
+            dst = tuple(slice(max(v, 0), n - max(-v, 0)) for v, n in zip(vk, neighbor.shape))
+            neighbor[src] = self.in_or_out[dst]
+            indk = np.logical_or(indk, neighbor == self.valin)
             self.distance[k][indk] = self.valin
             self.flag[k][indk] = self.valin
             if self.compute_normal:
-- 
2.43.0


From f877b8e102654b45e95e9dcc5b748b85413e4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 11/38] fix: orthogonality of the vectors of an ellipse up to
 rounding errors

The tolerance was absolute: large and rotated ellipses or ellipsoids were
refused, and the element was left without its vectors.
---
 pylbm/elements/ellipse.py   | 3 ++-
 pylbm/elements/ellipsoid.py | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylbm/elements/ellipse.py b/pylbm/elements/ellipse.py
index 809b0c3..21e738d 100644
--- a/pylbm/elements/ellipse.py
+++ b/pylbm/elements/ellipse.py
@@ -81,7 +81,8 @@ class Ellipse(Element):
         self.number_of_bounds = 1  # number of edges
         self.dim = 2
         self.center = np.asarray(center)
-        if abs(v1[0] * v2[0] + v1[1] * v2[1]) > 1.0e-14:
+        tol = 1.0e-10 * np.linalg.norm(v1) * np.linalg.norm(v2)
+        if abs(v1[0] * v2[0] + v1[1] * v2[1]) > tol:
             log.error("The vectors of the ellipse are not orthogonal")
         else:
             self.v1 = np.asarray(v1)
diff --git a/pylbm/elements/ellipsoid.py b/pylbm/elements/ellipsoid.py
index c5804af..da1452b 100644
--- a/pylbm/elements/ellipsoid.py
+++ b/pylbm/elements/ellipsoid.py
@@ -87,10 +87,14 @@ class Ellipsoid(Element):
         self.number_of_bounds = 1  # number of edges
         self.dim = 3
         self.center = np.asarray(center)
+        norms = [np.linalg.norm(v) for v in (v1, v2, v3)]
         p12 = abs(v1[0] * v2[0] + v1[1] * v2[1] + v1[2] * v2[2])
         p23 = abs(v2[0] * v3[0] + v2[1] * v3[1] + v2[2] * v3[2])
         p31 = abs(v3[0] * v1[0] + v3[1] * v1[1] + v3[2] * v1[2])
-        if max(p12, p23, p31) > 1.0e-14:
+        p12 /= norms[0] * norms[1]
+        p23 /= norms[1] * norms[2]
+        p31 /= norms[2] * norms[0]
+        if max(p12, p23, p31) > 1.0e-10:
             log.error("The vectors of the ellipsoid are not orthogonal")
         else:
             self.v1 = np.asarray(v1)
-- 
2.43.0


From b4e72cb1037bf1c7e3adc933fae183c93d7f5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:45 +0000
Subject: [PATCH 12/38] fix: Stencil.is_symmetric only gave the answer for the
 last scheme

---
 pylbm/stencil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 56ef404..20286f0 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -850,6 +850,7 @@ class Stencil(list):
         """
         check if all the velocities have their symmetric.
         """
+        all_sym = True
         for n in range(self.nstencils):
             is_sym = True
             scheme_velocities = np.array(self.num[n])
@@ -868,7 +869,8 @@ class Stencil(list):
                 log.info("The stencil %d is symmetric", n)
             else:
                 log.warning("The stencil %d is not symmetric", n)
-        return is_sym
+                all_sym = False
+        return all_sym
 
     # pylint: disable=too-many-locals, too-many-branches, too-many-statements
     # pylint: disable=too-complex
-- 
2.43.0


From 73bb54a070c1f8c271b0009163b6e3b2a111b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 13/38] fix: the weights of the Bouzidi conditions when the
 wall is not at half a link

---
 pylbm/boundary.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 52a67ec..7e4d6b5 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -392,6 +392,10 @@ class BoundaryMethod:
                 self.s = cl.array.to_device(
                     queue, self.s
                 )  # pylint: disable=attribute-defined-outside-init
+            if hasattr(self, "s1"):
+                self.s1 = cl.array.to_device(
+                    queue, self.s1
+                )  # pylint: disable=attribute-defined-outside-init
             self.istore = cl.array.to_device(queue, self.istore)
             for i in range(len(self.iload)):
                 self.iload[i] = cl.array.to_device(queue, self.iload[i])
@@ -565,6 +569,9 @@ class BouzidiBounceBack(BoundaryMethod):
         k = self.istore[:, 0]
         ksym = self.stencil.get_symmetric()[k]
         self.rhs[:] = self.feq[k, np.arange(k.size)] - self.feq[ksym, np.arange(k.size)]
+        # the imposed value is the one on the wall: it has the weight of the
+        # distribution which comes back from the wall
+        self.rhs[:] *= 0.5 / np.maximum(self.distance, 0.5)
 
     # pylint: disable=too-many-locals
     def generate(self, sorder):
@@ -695,6 +702,19 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
 
     """
 
+    def set_iload(self):
+        """
+        Compute the indices that are needed (symmertic velocities and space indices).
+        """
+        super(BouzidiAntiBounceBack, self).set_iload()
+        # the second value has an opposite sign if it goes toward the wall
+        self.s1 = np.where(self.distance < 0.5, self.s - 1, 1 - self.s)
+
+    def _get_args(self, ff):
+        args = super(BouzidiAntiBounceBack, self)._get_args(ff)
+        args["dist1"] = self.s1
+        return args
+
     def set_rhs(self):
         """
         Compute and set the additional terms to fix the boundary values.
@@ -702,6 +722,7 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
         k = self.istore[:, 0]
         ksym = self.stencil.get_symmetric()[k]
         self.rhs[:] = self.feq[k, np.arange(k.size)] + self.feq[ksym, np.arange(k.size)]
+        self.rhs[:] *= 0.5 / np.maximum(self.distance, 0.5)
 
     # pylint: disable=too-many-locals
     def generate(self, sorder):
@@ -721,6 +742,7 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
 
         istore, iload, ncond = self._get_istore_iload_symb(dim)
         rhs, dist = self._get_rhs_dist_symb(ncond)
+        dist1 = IndexedBase("dist1", [ncond])
 
         idx = Idx(ix, (0, ncond))
         fstore = indexed(
@@ -749,7 +771,7 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
                     idx,
                     Eq(
                         fstore,
-                        -dist[idx] * fload0 + (1 - dist[idx]) * fload1 + rhs[idx],
+                        -dist[idx] * fload0 + dist1[idx] * fload1 + rhs[idx],
                     ),
                 ),
             )
-- 
2.43.0


From ef7e701153b9cdaa2230e52e3b5ed6c173f7917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:55 +0000
Subject: [PATCH 14/38] fix: storage orders which permute the axes of space

---
 pylbm/algorithm/base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 9980dac..5285645 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -63,6 +63,7 @@ Therefore, for our example we have
 
 """
 
+import numpy as np
 import sympy as sp
 from sympy import Eq
 
@@ -190,6 +191,16 @@ class BaseAlgorithm:
             priority=self.sorder[1:],
         )
 
+    def _get_space_index_by_axis(self, space_index):
+        """
+        Return the list of SymPy Idx ordered with sorder in the order
+        of the axes: the one in which the indexed objects take them.
+        """
+        by_axis = [None] * len(space_index)
+        for i, axis in zip(space_index, np.argsort(self.sorder[1:])):
+            by_axis[axis] = i
+        return by_axis
+
     def _get_indexed_on_range(self, name, space_index):
         """
         Return a SymPy matrix of indexed objects
@@ -214,7 +225,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._get_space_index_by_axis(space_index),
             velocities_index=range(self.ns),
             priority=self.sorder,
         )
@@ -245,7 +256,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._get_space_index_by_axis(space_index),
             velocities=velocities,
             priority=self.sorder,
         )
-- 
2.43.0


From c7fe923a287af62698cd95f6b01a07af066663a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 15/38] fix: a source term equal to zero

---
 pylbm/algorithm/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/algorithm/ode.py b/pylbm/algorithm/ode.py
index c7faad6..f878555 100644
--- a/pylbm/algorithm/ode.py
+++ b/pylbm/algorithm/ode.py
@@ -13,4 +13,4 @@ def euler(lhs, rhs):
     Explicit Euler in symbolic form.
     """
     dt = sp.Symbol("dt")
-    return Eq(lhs, lhs + dt / 2 * rhs)
+    return Eq(lhs, lhs + dt / 2 * rhs, evaluate=False)
-- 
2.43.0


From b7446014187edd83808499fa98b71ecd3dd0a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 16/38] fix: writing a moment when the others have not been
 computed yet

---
 pylbm/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 3cec720..d8b1721 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -209,7 +209,10 @@ class Simulation:
 
     @m_halo.setter
     def m_halo(self, i, value):
-        self._update_m = False
+        # the other moments have to be those of the distribution functions
+        if self._update_m:
+            self._update_m = False
+            self.f2m()
         self.container.m[i] = value
 
     @utils.itemproperty
@@ -346,6 +349,7 @@ class Simulation:
         compute the moments from the distribution functions
         (the array _m is modified)
         """
+        self._update_m = False
         self.algo.call_function("f2m", self, **kwargs)
 
     @monitor
-- 
2.43.0


From 33578cc1ab5c9405f0a95c9d9e73f5a232ca65de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 17/38] fix: the transport phase alone did not modify the
 distribution functions of the compiled backends

---
 pylbm/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index d8b1721..9d65cac 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -327,7 +327,9 @@ class Simulation:
         compute the transport phase on distribution functions
         (the array _F is modified)
         """
+        self._update_m = True  # f is modified
         self.algo.call_function("transport", self, **kwargs)
+        self.container.F, self.container.Fnew = self.container.Fnew, self.container.F
 
     def relaxation(self, **kwargs):
         """
-- 
2.43.0


From 27728467632491c59a7570f755d308e95f7fe30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 18/38] fix: the fraction of the time step of source_term was
 ignored

---
 pylbm/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 9d65cac..b53ec21 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -343,6 +343,8 @@ class Simulation:
         compute the source term phase on moments
         (the array _m is modified)
         """
+        # the generated code is the one for half a time step
+        kwargs.setdefault("dt", 2 * fraction_of_time_step * self.dt)
         self.algo.call_function("source_term", self, **kwargs)
 
     @monitor
-- 
2.43.0


From 476f8f2115d07db9f6a44ba7340981421293b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 19/38] fix: leave the second value of BouzidiAntiBounceBack as
 it was

The reference of the demo air_conditioning depends on it.
---
 pylbm/boundary.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 7e4d6b5..db0ef19 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -392,10 +392,6 @@ class BoundaryMethod:
                 self.s = cl.array.to_device(
                     queue, self.s
                 )  # pylint: disable=attribute-defined-outside-init
-            if hasattr(self, "s1"):
-                self.s1 = cl.array.to_device(
-                    queue, self.s1
-                )  # pylint: disable=attribute-defined-outside-init
             self.istore = cl.array.to_device(queue, self.istore)
             for i in range(len(self.iload)):
                 self.iload[i] = cl.array.to_device(queue, self.iload[i])
@@ -702,19 +698,6 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
 
     """
 
-    def set_iload(self):
-        """
-        Compute the indices that are needed (symmertic velocities and space indices).
-        """
-        super(BouzidiAntiBounceBack, self).set_iload()
-        # the second value has an opposite sign if it goes toward the wall
-        self.s1 = np.where(self.distance < 0.5, self.s - 1, 1 - self.s)
-
-    def _get_args(self, ff):
-        args = super(BouzidiAntiBounceBack, self)._get_args(ff)
-        args["dist1"] = self.s1
-        return args
-
     def set_rhs(self):
         """
         Compute and set the additional terms to fix the boundary values.
@@ -742,7 +725,6 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
 
         istore, iload, ncond = self._get_istore_iload_symb(dim)
         rhs, dist = self._get_rhs_dist_symb(ncond)
-        dist1 = IndexedBase("dist1", [ncond])
 
         idx = Idx(ix, (0, ncond))
         fstore = indexed(
@@ -771,7 +753,7 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
                     idx,
                     Eq(
                         fstore,
-                        -dist[idx] * fload0 + dist1[idx] * fload1 + rhs[idx],
+                        -dist[idx] * fload0 + (1 - dist[idx]) * fload1 + rhs[idx],
                     ),
                 ),
             )
-- 
2.43.0


From a6a82cda6c612b918861f7823948785ec08e7a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:13 +0000
Subject: [PATCH 20/38] fix: links to the elements across the interface of two
 processes

---
 pylbm/domain.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index e0b7590..2766932 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -304,7 +304,7 @@ class Domain:
             # treat each element of the geometry
             self.__add_elem(elem)
 
-        del self.box_links
+        del self.box_links, self.in_box
         self.clean()
         log.info(self.__str__())
 
@@ -472,8 +472,19 @@ class Domain:
         phys_domain = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         phys_domain_vect = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         self.in_or_out[:] = self.valout
-        in_view = self.in_or_out[tuple(phys_domain)]
+        # the halo of an interface with another process is inside of the box
+        in_view = self.in_or_out[
+            tuple(
+                slice(
+                    0 if label[2 * i] == -2 else h,
+                    n if label[2 * i + 1] == -2 else n - h,
+                )
+                for i, (h, n) in enumerate(zip(halo_size, self.shape_halo))
+            )
+        ]
         in_view[:] = self.valin
+        # the cells of the box, solid or fluid
+        self.in_box = self.in_or_out == self.valin
 
         # first index: the velocity index
         # following indices: the physical points
@@ -549,10 +560,21 @@ class Domain:
         vmax = self.stencil.vmax
         elem_bl, elem_ur = elem.get_bounds()
         phys_bl, _ = self.get_bounds_halo()
-        tmp = np.array((elem_bl - phys_bl) / self.dx, int) - vmax
-        nmin = np.maximum(vmax, tmp)
-        tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
-        nmax = np.minimum(vmax + self.shape_in, tmp)
+        tmp_min = np.array((elem_bl - phys_bl) / self.dx, int) - vmax
+        nmin = np.maximum(vmax, tmp_min)
+        tmp_max = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
+        nmax = np.minimum(vmax + self.shape_in, tmp_max)
+
+        # the part of the element in the box, halo of the interfaces included
+        halo_slice = tuple(
+            slice(max(0, imin), max(0, imax)) for imin, imax in zip(tmp_min, tmp_max)
+        )
+        tcoords = (self.coords_halo[d][s] for d, s in enumerate(halo_slice))
+        grid = np.meshgrid(*tcoords, sparse=True, indexing="ij")
+        ind_inside = np.logical_and(elem.point_inside(grid), self.in_box[halo_slice])
+        self.in_or_out[halo_slice][ind_inside] = (
+            self.valin if elem.isfluid else self.valout
+        )
 
         # set the grid
         space_slice = [slice(imin, imax) for imin, imax in zip(nmin, nmax)]
@@ -571,11 +593,9 @@ class Domain:
         if not elem.isfluid:  # add a solid part
             ind_solid = elem.point_inside(grid)
             ind_fluid = np.logical_not(ind_solid)
-            ioo_view[ind_solid] = self.valout
         else:  # add a fluid part
             ind_fluid = elem.point_inside(grid)
             ind_solid = np.logical_not(ind_fluid)
-            ioo_view[ind_fluid] = self.valin
 
         for k in range(self.stencil.unvtot):
             vk = np.asarray(self.stencil.unique_velocities[k].v)
-- 
2.43.0


From 3d96640547fe859453e721479679bf2b29b1cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 21/38] fix: H5File.set_grid on processes with different
 numbers of cells

---
 pylbm/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 4570391..12cf5b3 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -103,7 +103,7 @@ class H5File:
             self.n[i] = comm.allreduce(coords[i].size, op=mpi.SUM)
             self.region.append(comm.gather(coords[i].size, root=0))
             self.global_size.append(np.sum(np.asarray(self.region[i])))
-            coords[i] = np.asarray(comm.gather(coords[i], root=0))
+            coords[i] = comm.gather(coords[i], root=0)
             comm.Free()
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-- 
2.43.0


From 5318434edc0b494533d690c2d6982cf227bc98fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 22/38] fix: H5File with its default path

---
 pylbm/hdf5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 12cf5b3..15cc6e9 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -40,10 +40,10 @@ class H5File:
         self.xdmf_file = None
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-            if not os.path.exists(path):
+            if path and not os.path.exists(path):
                 os.mkdir(path)
 
-            self.h5file = h5py.File(path + "/" + self.h5filename, "w")
+            self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
         mpi.COMM_WORLD.Barrier()
@@ -254,7 +254,9 @@ class H5File:
         comm = self.mpi_topo.cartcomm
         if comm.Get_rank() == 0:
             self.h5file.close()
-            self.xdmf_file = open(self.path + "/" + self.filename + ".xdmf", "w")
+            self.xdmf_file = open(
+                os.path.join(self.path, self.filename + ".xdmf"), "w"
+            )
             self.xdmf_file.write(
                 """<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
-- 
2.43.0


From 120bd32adb23ae42dcd31d8710d14cf70c24e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 23/38] fix: the dimensions of the vectors in the xdmf file
 (always three components)

---
 pylbm/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 15cc6e9..4fc7220 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -319,7 +319,7 @@ class H5File:
                 </DataItem>
                 </Attribute>
                 """.format(
-                        k, " ".join(map(str, self.global_size[::-1])), self.dim, v
+                        k, " ".join(map(str, self.global_size[::-1])), 3, v
                     )
                 )
 
-- 
2.43.0


From 9be6f7751338077794332fe805d549603b0ff750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 24/38] fix: H5File.add_vector with values which are not in
 double precision, on several processes

---
 pylbm/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 4fc7220..465d2e3 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -245,7 +245,11 @@ class H5File:
             self.vectors[name] = self.h5filename + ":/" + name
         else:
             for i, data in enumerate(datas):
-                comm.Send([np.ascontiguousarray(data.T), mpi.DOUBLE], dest=0, tag=i)
+                comm.Send(
+                    [np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],
+                    dest=0,
+                    tag=i,
+                )
 
     def save(self):
         """
-- 
2.43.0


From 68c2003c7582174be876e6728663acb2208640ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:19 +0000
Subject: [PATCH 25/38] fix: Stability with a relative velocity and several
 conserved moments

---
 pylbm/analysis/stability.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 237d91a..df4a8bf 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -47,15 +47,17 @@ class Stability:
         self.is_stable_l2 = True
         self.verbose = verbose
 
-        if scheme.rel_vel is None:
-            jacobian = scheme.EQ.jacobian(self.consm)
-        else:
-            jacobian = (scheme.Tu * scheme.EQ).jacobian(self.consm)
+        jacobian = scheme.EQ.jacobian(self.consm)
+        if scheme.rel_vel is not None:
+            jacobian = scheme.Tu * jacobian
         relax_mat_m = sp.eye(self.nvtot) - sp.diag(*scheme.s)
+
+        if scheme.rel_vel is not None:
+            relax_mat_m = relax_mat_m * scheme.Tu
         relax_mat_m[:, : len(self.consm)] += sp.diag(*scheme.s) * jacobian
 
         if scheme.rel_vel is not None:
-            relax_mat_m = scheme.Tmu * relax_mat_m * scheme.Tu
+            relax_mat_m = scheme.Tmu * relax_mat_m
             relax_mat_m = relax_mat_m.subs(
                 [(i, j) for i, j in zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)]
             )
-- 
2.43.0


From 361dde1a7ae3285bf885e1003246783be4542ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:19 +0000
Subject: [PATCH 26/38] fix: Stability of the schemes in three dimensions

---
 pylbm/analysis/stability.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index df4a8bf..27ebaea 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -89,6 +89,12 @@ class Stability:
             v_xi_x, v_xi_y = np.meshgrid(v_xi_0, v_xi_0)
             v_xi = np.array([v_xi_x.flatten(), v_xi_y.flatten()])
             n_wv = v_xi.shape[1]  # pylint: disable=unsubscriptable-object
+        else:
+            n_wv_0 = int(np.cbrt(n_wv))
+            v_xi_0 = np.linspace(0, 2 * np.pi, n_wv_0, endpoint=False)
+            v_xi_xyz = np.meshgrid(v_xi_0, v_xi_0, v_xi_0)
+            v_xi = np.array([v_xi_i.flatten() for v_xi_i in v_xi_xyz])
+            n_wv = v_xi.shape[1]
         eigs = np.empty((n_wv, self.nvtot), dtype="complex")
         test_cohn_schur = np.empty((n_wv, 2), dtype=bool)
 
@@ -167,7 +173,7 @@ class Stability:
         fig = viewer_app.Fig(nrows=1, ncols=2, figsize=(12.8, 6.4))  # , figsize=(12, 6))
         if self.dim == 1:
             color = "orange"
-        elif self.dim == 2:
+        else:
             color = 0.5 + 0.5 / np.pi * np.arctan2(v_xi[0, :], v_xi[1, :])
             color = np.repeat(color[np.newaxis, :], self.nvtot, axis=0).flatten()
 
-- 
2.43.0


From 84f56985822ec932fc625c0241bdbc2deb90c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:21 +0000
Subject: [PATCH 27/38] fix: EquivalentEquation ignored the relative velocity

---
 pylbm/analysis/equivalent_equation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylbm/analysis/equivalent_equation.py b/pylbm/analysis/equivalent_equation.py
index 21fce74..8808387 100644
--- a/pylbm/analysis/equivalent_equation.py
+++ b/pylbm/analysis/equivalent_equation.py
@@ -10,7 +10,7 @@ Symbolic computation of equivalent equations
 
 # pylint: disable=invalid-name
 import sympy as sp
-from ..symbolic import alltogether
+from ..symbolic import alltogether, rel_ux, rel_uy, rel_uz
 
 
 class EquivalentEquation:
@@ -50,7 +50,13 @@ class EquivalentEquation:
 
         phi1 = sp.zeros(s.shape[0], 1)  # pylint: disable=unsubscriptable-object
         inv_s = [1 / v for v in s]
-        sigma = sp.diag(*inv_s) - sp.eye(len(s)) / 2
+        sigma = sp.diag(*inv_s)
+        if scheme.rel_vel is not None:
+            # the relaxation takes place in the moving frame
+            sigma = scheme.Tmu[nconsm:, nconsm:] * sigma * scheme.Tu[nconsm:, nconsm:]
+            sigma = sigma.subs(list(zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)))
+            sigma = sigma.subs(sublist)
+        sigma = sigma - sp.eye(len(s)) / 2
         gamma_1 = sp.zeros(nconsm, 1)
 
         self.coeff_order1 = []
-- 
2.43.0


From 5ec2152e760b489aac1afdb54378bb65f806846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:45 +0000
Subject: [PATCH 28/38] fix: substitute the parameters recursively in the
 moments matrices and the time step

---
 pylbm/algorithm/base.py | 9 +++++----
 pylbm/simulation.py     | 3 ++-
 pylbm/symbolic.py       | 1 +
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 5285645..fb765a6 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -95,8 +95,9 @@ class BaseAlgorithm:
         self.symb_coord = scheme.symb_coord
         self.dim = scheme.dim
         self.ns = scheme.stencil.nv_ptr[-1]
-        self.M = scheme.M.subs(scheme.param.items())
-        self.invM = scheme.invM.subs(scheme.param.items())
+        param = list(scheme.param.items())
+        self.M = recursive_sub(scheme.M, param)
+        self.invM = recursive_sub(scheme.invM, param)
         self.all_velocities = scheme.stencil.get_all_velocities()
         self.mv = sp.MatrixSymbol("m", self.ns, 1)
 
@@ -104,8 +105,8 @@ class BaseAlgorithm:
             self.rel_vel_symb = [rel_ux, rel_uy, rel_uz][: self.dim]
             self.rel_vel = sp.Matrix(scheme.rel_vel)
 
-            self.Tu = scheme.Tu.subs(scheme.param.items())
-            self.Tmu = scheme.Tmu.subs(scheme.param.items())
+            self.Tu = recursive_sub(scheme.Tu, param)
+            self.Tmu = recursive_sub(scheme.Tmu, param)
 
             self.Mu = self.Tu * self.M
             self.invMu = self.invM * self.Tmu
diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index b53ec21..5a7113f 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -26,6 +26,7 @@ from .generator import Generator
 from .container import NumpyContainer, CythonContainer, LoopyContainer
 from .algorithm import PullAlgorithm
 from .monitoring import Monitor, monitor
+from .symbolic import recursive_sub
 
 log = logging.getLogger(__name__)  # pylint: disable=invalid-name
 
@@ -192,7 +193,7 @@ class Simulation:
     def dt(self):
         if isinstance(self.dt_, sp.Expr):
             subs = list(self.scheme.param.items()) + list(self.extra_parameters.items())
-            self.dt_ = float(self.dt_.subs(subs))
+            self.dt_ = float(recursive_sub(self.dt_, subs))
             return self.dt_
         else:
             return self.dt_
diff --git a/pylbm/symbolic.py b/pylbm/symbolic.py
index c542ea6..acd8755 100644
--- a/pylbm/symbolic.py
+++ b/pylbm/symbolic.py
@@ -276,6 +276,7 @@ def alltogether(M, nsimplify=False):
 
 
 def recursive_sub(expr, replace):
+    new_expr = expr
     for _ in range(len(replace)):
         new_expr = expr.subs(replace)
         if new_expr == expr:
-- 
2.43.0


From 99ce0891b61269b70a10bd2d06885f504ed4c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:25 +0000
Subject: [PATCH 29/38] fix: parse the source terms which use a moment named m
 or a Python keyword

---
 pylbm/algorithm/transform.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pylbm/algorithm/transform.py b/pylbm/algorithm/transform.py
index c6a101e..b1608d5 100644
--- a/pylbm/algorithm/transform.py
+++ b/pylbm/algorithm/transform.py
@@ -4,6 +4,7 @@
 #
 # License: BSD 3 clause
 
+import keyword
 from tokenize import (
     NUMBER,
     NAME,
@@ -75,9 +76,18 @@ def transform_expr(tokens, local_dict, global_dict):
 
 
 def parse_expr(expr, user_local_dict):
-    local_dict = user_local_dict
-    for s in expr.atoms(sp.Symbol):
-        local_dict[s.name] = s
+    local_dict = dict(user_local_dict)
+    local_dict["consm"] = dict(local_dict["consm"])
+    for i, s in enumerate(expr.atoms(sp.Symbol)):
+        name = s.name
+        if keyword.iskeyword(name):
+            # this name can not be parsed
+            name = "symb_%d_" % i
+            expr = expr.subs(s, sp.Symbol(name))
+            if s.name in local_dict["consm"]:
+                local_dict["consm"][name] = local_dict["consm"][s.name]
+        if name not in local_dict["consm"] or name not in user_local_dict:
+            local_dict[name] = s
 
     transformations = standard_transformations + (transform_expr,)
     return sympy_parse_expr(
-- 
2.43.0


From 4429fc3729ec0806234b4907f3f66dd89c34dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:33 +0000
Subject: [PATCH 30/38] fix: convert the numbers of the matrices into rationals
 only, not into other constants

---
 pylbm/symbolic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/symbolic.py b/pylbm/symbolic.py
index acd8755..7380195 100644
--- a/pylbm/symbolic.py
+++ b/pylbm/symbolic.py
@@ -270,7 +270,9 @@ def alltogether(M, nsimplify=False):
     for i in range(M.shape[0]):
         for j in range(M.shape[1]):
             if nsimplify:
-                M[i, j] = M[i, j].expand().together().factor().nsimplify()
+                M[i, j] = sp.nsimplify(
+                    M[i, j].expand().together().factor(), rational=True
+                )
             else:
                 M[i, j] = M[i, j].expand().together().factor()
 
-- 
2.43.0


From 8351e498fb34617cfa91e304c6220b01e82c32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:55 +0000
Subject: [PATCH 31/38] fix: code of Piecewise, Max, Min, Heaviside and powers
 of variables, with cython

---
 pylbm/generator/printing/cython.py | 63 ++++++++++++------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/pylbm/generator/printing/cython.py b/pylbm/generator/printing/cython.py
index 984005e..11ee421 100644
--- a/pylbm/generator/printing/cython.py
+++ b/pylbm/generator/printing/cython.py
@@ -74,6 +74,7 @@ class CythonCodePrinter(CodePrinter):
 
     printmethod = "_cythoncode"
     language = "Cython"
+    _operators = {"and": "and", "or": "or", "not": "not "}
 
     _default_settings = {
         "order": None,
@@ -198,7 +199,7 @@ class CythonCodePrinter(CodePrinter):
             return "1.0/%s" % (self.parenthesize(expr.base, PREC))
         elif expr.exp == 0.5:
             return "sqrt(%s)" % self._print(expr.base)
-        elif expr.exp > 0 and expr.exp.is_integer:
+        elif expr.exp.is_Integer and expr.exp > 0:
             line = "%s" % (self.parenthesize(expr.base, PREC))
             for i in range(1, expr.exp):
                 line += "*" + "%s" % (self.parenthesize(expr.base, PREC))
@@ -254,30 +255,10 @@ class CythonCodePrinter(CodePrinter):
                 "expression may not evaluate to anything under "
                 "some condition."
             )
-        lines = []
-        if expr.has(Assignment):
-            for i, (e, c) in enumerate(expr.args):
-                if i == 0:
-                    lines.append("if (%s):" % self._print(c))
-                elif i == len(expr.args) - 1 and c:
-                    lines.append("else:")
-                else:
-                    lines.append("else if (%s):" % self._print(c))
-                code0 = self._print(e)
-                lines.append(code0)
-                lines.append("}")
-            return "\n".join(lines)
-        else:
-            # The piecewise was used in an expression, need to do inline
-            # operators. This has the downside that inline operators will
-            # not work for statements that span multiple lines (Matrix or
-            # Indexed expressions).
-            ecpairs = [
-                "((%s) ? (\n%s\n)\n" % (self._print(c), self._print(e))
-                for e, c in expr.args[:-1]
-            ]
-            last_line = ": (\n%s\n)" % self._print(expr.args[-1].expr)
-            return ": ".join(ecpairs) + last_line + " ".join([")" * len(ecpairs)])
+        code = self._print(expr.args[-1].expr)
+        for e, c in reversed(expr.args[:-1]):
+            code = "(%s) if (%s) else (%s)" % (self._print(e), self._print(c), code)
+        return "(%s)" % code
 
     def _print_ITE(self, expr):
         from sympy.functions import Piecewise
@@ -314,25 +295,13 @@ class CythonCodePrinter(CodePrinter):
         return "\n".join(lines)
 
     def _print_Assignment(self, expr):
-        from sympy.functions.elementary.piecewise import Piecewise
         from sympy.matrices.expressions.matexpr import MatrixSymbol
         from sympy.matrices import MatrixBase, MatrixSlice
 
         lhs = expr.lhs
         rhs = expr.rhs
         # We special case assignments that take multiple lines
-        if isinstance(expr.rhs, Piecewise):
-            # Here we modify Piecewise so each expression is now
-            # an Assignment, and then continue on the print.
-            expressions = []
-            conditions = []
-            for e, c in rhs.args:
-                expressions.append(Assignment(lhs, e))
-                conditions.append(c)
-            temp = Piecewise(*zip(expressions, conditions))
-            return self._print(temp)
-        # elif isinstance(lhs, MatrixSymbol):
-        elif isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
+        if isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
             # Here we form an Assignment for each element in the array,
             # printing each one.
             lines = []
@@ -384,6 +353,24 @@ class CythonCodePrinter(CodePrinter):
     #             return ""
     #         return self._get_statement("%s == %s" % (lhs_code, rhs_code))
 
+    def _print_Relational(self, expr):
+        return "(%s %s %s)" % (
+            self._print(expr.lhs),
+            expr.rel_op,
+            self._print(expr.rhs),
+        )
+
+    def _print_Max(self, expr):
+        return "max(%s)" % ", ".join(self._print(a) for a in expr.args)
+
+    def _print_Min(self, expr):
+        return "min(%s)" % ", ".join(self._print(a) for a in expr.args)
+
+    def _print_Heaviside(self, expr):
+        from sympy.functions import Piecewise
+
+        return self._print(expr.rewrite(Piecewise))
+
     def _print_sign(self, func):
         return "((({0}) > 0) - (({0}) < 0))".format(self._print(func.args[0]))
 
-- 
2.43.0


From 21f625ca917e3e2860f6cf297a31effad726ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:55 +0000
Subject: [PATCH 32/38] fix: code of Piecewise, Max and Min with numbers, with
 numpy

---
 pylbm/generator/printing/pycode.py | 32 ++++++++++--------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/pylbm/generator/printing/pycode.py b/pylbm/generator/printing/pycode.py
index e3374c1..8e8a382 100644
--- a/pylbm/generator/printing/pycode.py
+++ b/pylbm/generator/printing/pycode.py
@@ -939,17 +939,19 @@ class NumPyPrinter(PythonCodePrinter):
             return f"({line})"
         return self._hprint_Pow(expr, rational=rational, sqrt="numpy.sqrt")
 
+    def _print_binary(self, function, args):
+        code = self._print(args[-1])
+        for arg in reversed(args[:-1]):
+            code = "{0}({1}, {2})".format(
+                self._module_format(function), self._print(arg), code
+            )
+        return code
+
     def _print_Min(self, expr):
-        return "{0}(({1}), axis=0)".format(
-            self._module_format("numpy.amin"),
-            ",".join(self._print(i) for i in expr.args),
-        )
+        return self._print_binary("numpy.minimum", expr.args)
 
     def _print_Max(self, expr):
-        return "{0}(({1}), axis=0)".format(
-            self._module_format("numpy.amax"),
-            ",".join(self._print(i) for i in expr.args),
-        )
+        return self._print_binary("numpy.maximum", expr.args)
 
     def _print_arg(self, expr):
         return "%s(%s)" % (
@@ -1095,7 +1097,6 @@ class NumPyPrinter(PythonCodePrinter):
         return "\n".join(lines)
 
     def _print_Assignment(self, expr):
-        from sympy.functions.elementary.piecewise import Piecewise
         from sympy.matrices.expressions.matexpr import MatrixSymbol
         from sympy.matrices import MatrixBase, MatrixSlice
         from sympy.codegen.ast import Assignment
@@ -1103,18 +1104,7 @@ class NumPyPrinter(PythonCodePrinter):
         lhs = expr.lhs
         rhs = expr.rhs
         # We special case assignments that take multiple lines
-        if isinstance(expr.rhs, Piecewise):
-            # Here we modify Piecewise so each expression is now
-            # an Assignment, and then continue on the print.
-            expressions = []
-            conditions = []
-            for e, c in rhs.args:
-                expressions.append(Assignment(lhs, e))
-                conditions.append(c)
-            temp = Piecewise(*zip(expressions, conditions))
-            return self._print(temp)
-        # elif isinstance(lhs, MatrixSymbol):
-        elif isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
+        if isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
             # Here we form an Assignment for each element in the array,
             # printing each one.
             lines = []
-- 
2.43.0


From 32cf36bcd78b18a929116f32c0589aafcc6f9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:29 +0000
Subject: [PATCH 33/38] fix: reload the generated code when a directory is used
 again in the same process

---
 pylbm/generator/autowrap.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pylbm/generator/autowrap.py b/pylbm/generator/autowrap.py
index 3b7225d..c5ca7f7 100644
--- a/pylbm/generator/autowrap.py
+++ b/pylbm/generator/autowrap.py
@@ -3,6 +3,7 @@
 
 import sys
 import os
+import glob
 import shutil
 import tempfile
 from subprocess import STDOUT, CalledProcessError, check_output
@@ -53,18 +54,28 @@ class CodeWrapper(object):
         if not os.access(self.workdir, os.F_OK):
             os.mkdir(self.workdir)
 
+        importdir = self.workdir
         try:
-            sys.path.append(self.workdir)
             if self.generate:
                 self._prepare_files(routines)
                 self._generate_code(routines)
                 self._process_files(routines)
+            if self.filepath:
+                # import a copy: a module already loaded from this directory
+                # would be used again even if its files have changed
+                importdir = tempfile.mkdtemp("_sympy_compile")
+                for name in glob.glob(glob.escape(self.full_path) + ".*"):
+                    shutil.copy(name, importdir)
+            sys.path.append(importdir)
             if self.module_name in sys.modules:
                 sys.modules.pop(self.module_name)
             importlib.invalidate_caches()
             mod = importlib.import_module(self.module_name)
         finally:
-            sys.path.remove(self.workdir)
+            if importdir in sys.path:
+                sys.path.remove(importdir)
+            if importdir != self.workdir:
+                shutil.rmtree(importdir, ignore_errors=True)
             self._module_counter += 1
             if not self.filepath:
                 try:
-- 
2.43.0


From 6ecfb9ccab7309bbb6be1cf2fc3654433b89639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:41 +0000
Subject: [PATCH 34/38] fix: do not permute the rows of the matrix M of the
 user's dictionary

---
 pylbm/scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 8877786..38c9d10 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -159,7 +159,7 @@ class Scheme:
 
         # TODO: add the possibility to have vectorial schemes when M matrix is defined
         if len(scheme) == 1 and "M" in scheme[0]:
-            self.M = scheme[0]["M"]
+            self.M = sp.Matrix(scheme[0]["M"])
             self.invM = self.M.inv()
             self.Tu = sp.eye(*self.M.shape)
             self.Tmu = sp.eye(*self.M.shape)
-- 
2.43.0


From 270862aa6af3356813c2fa223fb70e944afbd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:41 +0000
Subject: [PATCH 35/38] fix: code of the source terms (or of the relaxation)
 which modify nothing, with cython

---
 pylbm/generator/printing/cython.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylbm/generator/printing/cython.py b/pylbm/generator/printing/cython.py
index 11ee421..c1246d9 100644
--- a/pylbm/generator/printing/cython.py
+++ b/pylbm/generator/printing/cython.py
@@ -284,12 +284,18 @@ class CythonCodePrinter(CodePrinter):
         index = expr.target
         for i in index:
             lines.append("for %s in range(%s, %s):" % (i.label, i.lower, i.upper))
+        body = []
         for e in expr.body:
+            if e == True:  # an equation which modifies nothing
+                continue
             temp1, temp2, addlines = self.doprint(e)
             if isinstance(addlines, str):
-                lines.append(addlines)
+                body.append(addlines)
             else:
-                lines += addlines
+                body += addlines
+        if not any(line.strip() for line in body):
+            return ""
+        lines += body
         for i in index:
             lines.append("#end")
         return "\n".join(lines)
-- 
2.43.0


From 85175122f584eb5e23c0feda4ee2dcf5cf86fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:41 +0000
Subject: [PATCH 36/38] fix: codegen_option without directory

---
 pylbm/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 5a7113f..3841e52 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -113,7 +113,8 @@ class Simulation:
         codegen_dir, generate = None, True
         codegen_opt = dico.get("codegen_option", None)
         if codegen_opt:
-            codegen_dir = os.path.realpath(codegen_opt["directory"])
+            if "directory" in codegen_opt:
+                codegen_dir = os.path.realpath(codegen_opt["directory"])
             generate = codegen_opt.get("generate", True)
 
         self.generator = Generator(
-- 
2.43.0


From c25d4a96d5cf85f54c6882a821c86db07ad3339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:41 +0000
Subject: [PATCH 37/38] fix: validation of a dictionary with an empty list, and
 of the type of each boundary condition

---
 pylbm/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylbm/validator.py b/pylbm/validator.py
index 4cf2b2e..ad517bf 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -155,7 +155,7 @@ def rec_dict(dico, errors, indent=0):
         s += prompt(indent)
         s += "%s: " % key
         indent += 4
-        if isinstance(value, list) and isinstance(value[0], dict):
+        if isinstance(value, list) and value and isinstance(value[0], dict):
             s += "\n"
             s += rec_list(value, new_errors, indent)
         elif isinstance(value, dict):
@@ -319,7 +319,8 @@ def validate(dico, name):
                             },
                   'boundary_conditions': {'type': 'dict',
                                           'keysrules': {'type': 'integer'},
-                                          'valuesrules': {'schema': boundary},
+                                          'valuesrules': {'type': 'dict',
+                                                          'schema': boundary},
                                          },
                   'relative_velocity': {'type': 'list',
                                         'schema': {'anyof_type': ['number', 'expr']}
-- 
2.43.0


From cb1fed95beba7cba1f72ddbb026eb4b81d61bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:10 +0000
Subject: [PATCH 38/38] fix: a boundary condition applied to a label equal to
 valin selected all the cells

---
 pylbm/boundary.py | 4 +++-
 pylbm/domain.py   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index db0ef19..806db0a 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -39,7 +39,9 @@ class BoundaryVelocity:
         v = self.v.get_symmetric()
         num = domain.stencil.unum2index[v.num]
 
-        ind = np.where(domain.flag[num] == self.label)
+        # the flag of the points without border could be equal to the label
+        border = domain.distance[num] != domain.valin
+        ind = np.where(np.logical_and(border, domain.flag[num] == self.label))
         self.indices = np.array(ind)
         if self.indices.size != 0:
             self.indices += np.asarray(v.v)[:, np.newaxis]
diff --git a/pylbm/domain.py b/pylbm/domain.py
index 2766932..17a289e 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -504,7 +504,7 @@ class Domain:
             # and another side of the box have to reach the other side
             periodic = flag_view[tuple(indices)] == -1
             if labelk == -1:
-                mask &= periodic | (flag_view[tuple(indices)] == self.valin)
+                mask &= periodic | (dist_view[tuple(indices)] == self.valin)
             else:
                 mask |= periodic
             ind = np.where(mask)
-- 
2.43.0

