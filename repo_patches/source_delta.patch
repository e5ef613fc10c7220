From 45306216dff797590940c2235354eb4d60c8dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:02 +0000
Subject: [PATCH 01/47] fix: map SO(2)/O(2) elements to valid subgroup elements
 for any angle representative

---
 e2cnn/group/groups/o2group.py  | 4 ++--
 e2cnn/group/groups/so2group.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 13051e9..4624c74 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -209,7 +209,7 @@ class O2(Group):
                 # child_mapping = lambda e, order=order: None if (e[0] != 0 or not divides(2.*np.pi/order, e[1])) else \
                 #                                        int(round(e[1] * order / (2.*np.pi)))
                 child_mapping = lambda e, order=order: None if (e[0] != 0 or not utils.cycle_isclose(e[1], 0., 2.*np.pi/order)) else \
-                    int(round(e[1] * order / (2.*np.pi)))
+                    int(round(e[1] * order / (2.*np.pi))) % order
 
             elif id[0] is not None and id[1] > 1:
                 # take the elements of the group generated by "2pi/order" and "2pi/k f"
@@ -217,7 +217,7 @@ class O2(Group):
 
                 parent_mapping = lambda e, order=order, axis=axis: (e[0], e[1] * 2. * np.pi / order + e[0]*axis)
                 child_mapping = lambda e, order=order, axis=axis: None if not utils.cycle_isclose(e[1] - e[0]*axis, 0., 2.*np.pi/order) else \
-                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))))
+                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))) % order)
             else:
                 raise ValueError(f"id '{id}' not recognized")
 
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 62e0542..db9755b 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -143,7 +143,7 @@ class SO2(Group):
             sg = CyclicGroup(order)
             parent_mapping = lambda e, order=order: e*2*np.pi/order
             # child_mapping = lambda e, order=order: None if divmod(e, 2.*np.pi/order)[1] > 1e-15 else int(round(e * order / (2.*np.pi)))
-            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi)))
+            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi))) % order
 
             self._subgroups[id] = sg, parent_mapping, child_mapping
     
-- 
2.43.0


From 440d1ac0367bc457e10e807eb45c7b5ffbfb50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:17 +0000
Subject: [PATCH 02/47] fix: inducing from SO(2) to O(2) no longer uses the
 removed numpy alias np.float

---
 e2cnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 4624c74..f57885d 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -445,7 +445,7 @@ class O2(Group):
             
             size = P.size
             
-            v = np.zeros((repr.size, size), dtype=np.float)
+            v = np.zeros((repr.size, size), dtype=float)
 
             def build_commuting_matrix(rho, t):
                 k = rho.attributes["frequency"]
-- 
2.43.0


From eea5ac248820e6feade044d3258f111343e98f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 03/47] fix: no repeated basis elements when only the maximum
 offset is set

The lower bound of non-negative frequencies was ignored when no maximum
frequency was given, so kernels between 1-dimensional irreps appeared with
both signs of the frequency: a linearly dependent basis.
---
 e2cnn/kernels/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/e2cnn/kernels/utils.py b/e2cnn/kernels/utils.py
index 37c19a4..c7f8249 100644
--- a/e2cnn/kernels/utils.py
+++ b/e2cnn/kernels/utils.py
@@ -30,12 +30,14 @@ def offset_iterator(base_frequency, N, maximum_offset=None, maximum_frequency=No
             else:
                 return int(math.ceil(x))
             
-        if maximum_frequency is not None:
+        min_offset = -10000
+        max_offset = 10000
+
+        if minimum_frequency is not None:
             min_offset = (minimum_frequency - base_frequency) / N
+
+        if maximum_frequency is not None:
             max_offset = (maximum_frequency - base_frequency) / N
-        else:
-            min_offset = -10000
-            max_offset = 10000
             
         if maximum_offset is not None:
             min_offset = max(min_offset, -maximum_offset)
-- 
2.43.0


From a07357253447da3abd02f66d14f04d81818c47ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 04/47] fix: quarter turns reached through rounding errors are
 not interpolated

An angle that is a multiple of pi/2 only up to floating point rounding went
through spline interpolation, which zero-filled parts of the border.
---
 e2cnn/gspaces/r2/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/utils.py b/e2cnn/gspaces/r2/utils.py
index 126bfef..3bed636 100644
--- a/e2cnn/gspaces/r2/utils.py
+++ b/e2cnn/gspaces/r2/utils.py
@@ -6,11 +6,11 @@ from scipy.ndimage import rotate
 
 def rotate_array(x, angle):
     k = 2 * angle / np.pi
-    if k.is_integer():
+    if abs(k - round(k)) < 1e-9:
         # Rotations by 180 and 270 degrees seem to be not perfect using `ndimage.rotate` and can therefore
         # make some tests fail.
         # For this reason, we use `np.rot90` to perform rotations by multiples of 90 degrees without interpolation
-        return np.rot90(x, k, axes=(-2, -1))
+        return np.rot90(x, round(k), axes=(-2, -1))
     else:
         return rotate(x, angle * 180.0 / np.pi, (-2, -1), reshape=False, order=2)
 
-- 
2.43.0


From 16ccdbe0558df9e127dbaab1b9f554b2ac02d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 05/47] fix: blocks with a single basis element can be expanded

Indexing with a uint8 mask raises an error when one element is selected, so
e.g. a 1x1 convolution between scalar fields could not be built.
---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 53d4ea2..a1062db 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -77,7 +77,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = sampled_basis[norms, ...]
         
         full_mask = torch.zeros_like(mask)
-        full_mask[mask] = norms.to(torch.uint8)
+        full_mask[mask.bool()] = norms.to(torch.uint8)
         self._mask = full_mask
 
         self.attributes = [attr for b, attr in enumerate(attributes) if norms[b]]
-- 
2.43.0


From c2b0a23f6dfca48d90c8bd9ed92d1994090b292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:47 +0000
Subject: [PATCH 06/47] fix: finite difference stencils follow the order of the
 sampling points

DiffopBasis.sample returned FD stencils turned by 90 degrees with respect to
the points, so differential operators were not equivariant to reflections.
---
 e2cnn/diffops/basis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index e23ad7f..1eafe85 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -144,6 +144,13 @@ class DiffopBasis(Basis):
                         method=self.disc.method,
                     )
 
+        if self.disc.method == "fd":
+            # FD stencils are indexed by increasing x and increasing y, while the points
+            # are sorted in rows of increasing x, starting from the largest y
+            num_x, num_y = len(np.unique(points[0])), len(np.unique(points[1]))
+            basis = basis.reshape(basis.shape[:3] + (num_x, num_y))
+            basis = np.rot90(basis, axes=(3, 4)).reshape(basis.shape[:3] + (num_points, ))
+
         # Finally, we move the len_basis axis to the third position
         basis = basis.transpose(1, 2, 0, 3)
 
-- 
2.43.0


From 4a4bf6cdcaa002009f75ec9a9dfe28c7613a496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:23 +0000
Subject: [PATCH 07/47] fix: bases for different reflection axes are not equal

The expansion of a basis is shared between equal bases, so a layer could get
the filters of a layer built earlier for another reflection axis.
---
 e2cnn/diffops/irreps_basis.py | 6 +++---
 e2cnn/kernels/irreps_basis.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 2077fab..49c9d30 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -579,9 +579,9 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         return attr
 
     def __eq__(self, other):
-        if not isinstance(other, R2DiscreteRotationsSolution):
+        if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -888,7 +888,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index f4af163..493ee43 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 49a0df99760104eca3dfb049420f002bcdc31fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:39 +0000
Subject: [PATCH 08/47] fix: diffop bases with different powers or
 discretizations are not mixed up

The cache of bases in the GSpace and the equality of bases, which decides
whether sampled filters are shared, ignored max_power and discretization.
---
 e2cnn/diffops/basis.py           | 2 +-
 e2cnn/diffops/steerable_basis.py | 2 +-
 e2cnn/gspaces/r2/general_r2.py   | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index 1eafe85..1dd0b6a 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -202,7 +202,7 @@ class LaplaceProfile(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, LaplaceProfile):
-            return self.max_power == other.max_power
+            return self.max_power == other.max_power and self.disc == other.disc
         else:
             return False
 
diff --git a/e2cnn/diffops/steerable_basis.py b/e2cnn/diffops/steerable_basis.py
index 1823bed..2b9f8bf 100644
--- a/e2cnn/diffops/steerable_basis.py
+++ b/e2cnn/diffops/steerable_basis.py
@@ -238,7 +238,7 @@ class SteerableDiffopBasis(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, SteerableDiffopBasis):
             return False
-        elif self.in_repr != other.in_repr or self.out_repr != other.out_repr:
+        elif self.in_repr != other.in_repr or self.out_repr != other.out_repr or self.disc != other.disc:
             return False
         else:
             sbk1 = sorted(self.irreps_bases.keys())
diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index b0f6f8a..29c1b6d 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -185,6 +185,8 @@ class GeneralOnR2(GSpace):
         
         # build the key
         key = dict(**kwargs)
+        key["max_power"] = max_power
+        key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
         if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
-- 
2.43.0


From 9f161a0078c32a5e582e316447a34cab2f5165f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:39 +0000
Subject: [PATCH 09/47] fix: caches tell representations with the same name
 apart

Kernel and diffop bases and restricted fields were looked up by the name of
the representations, so a different representation with the same name got
the basis or the restriction of the first one.
---
 e2cnn/gspaces/r2/general_r2.py | 12 ++++++------
 e2cnn/nn/field_type.py         |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index 29c1b6d..e59619b 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -114,16 +114,16 @@ class GeneralOnR2(GSpace):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def build_diffop_basis(self,
                            in_repr: Representation,
@@ -189,16 +189,16 @@ class GeneralOnR2(GSpace):
         key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._diffop_basis_generator(in_repr, out_repr, max_power, discretization, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
     
     @abstractmethod
     def _basis_generator(self,
diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index da617b9..d844605 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -266,10 +266,10 @@ class FieldType:
         # restrict each different base representation in the fiber representation
         restricted_reprs = {}
         for r in self._unique_representations:
-            restricted_reprs[r.name] = self.gspace.fibergroup.restrict_representation(id, r)
+            restricted_reprs[r] = self.gspace.fibergroup.restrict_representation(id, r)
     
         # for each field, retrieve the corresponding restricted representation
-        fields = [restricted_reprs[r.name] for r in self.representations]
+        fields = [restricted_reprs[r] for r in self.representations]
     
         # build the restricted fiber representation
         rrepr = FieldType(subspace, fields)
-- 
2.43.0


From 433843e0007286885fc68c05fcee490a28088e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:41 +0000
Subject: [PATCH 10/47] fix: O(2) irreps above the initial maximum frequency
 can be restricted to SO(2) and O(2)

---
 e2cnn/group/groups/o2group.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index f57885d..d293526 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -257,16 +257,18 @@ class O2(Group):
 
         if id[0] is not None and id[1] == -1:
             
+            j = irr.attributes["flip_frequency"]
+            f = irr.attributes["frequency"]
+
             change_of_basis = np.eye(irr.size)
-            irreps.append(irr.name)
+            irreps.append(sg.irrep(j, f).name)
 
             if irr.size == 2:
-                f = irr.attributes["frequency"]
                 change_of_basis = utils.psi(0.5 * id[0], f) @ change_of_basis
 
         elif id[0] is None and id[1] == -1:
             f = irr.attributes["frequency"]
-            irreps.append(f"irrep_{f}")
+            irreps.append(sg.irrep(f).name)
             change_of_basis = np.eye(irr.size)
             
         elif id[0] is not None and id[1] == 1:
-- 
2.43.0


From b9cafceec89545b4be017bc598643f47fbe49764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:41 +0000
Subject: [PATCH 11/47] fix: spaces with different reflection axes are not
 equal, equal spaces have equal hashes

---
 e2cnn/gspaces/r2/flip2d_on_r2.py    | 6 +++---
 e2cnn/gspaces/r2/fliprot2d_on_r2.py | 6 +++---
 e2cnn/gspaces/r2/utils.py           | 5 +++++
 e2cnn/nn/field_type.py              | 2 +-
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/e2cnn/gspaces/r2/flip2d_on_r2.py b/e2cnn/gspaces/r2/flip2d_on_r2.py
index eddcbfc..3cb9f5a 100644
--- a/e2cnn/gspaces/r2/flip2d_on_r2.py
+++ b/e2cnn/gspaces/r2/flip2d_on_r2.py
@@ -6,7 +6,7 @@ from e2cnn import kernels
 from e2cnn import diffops
 
 from .general_r2 import GeneralOnR2
-from .utils import rotate_array
+from .utils import rotate_array, axis_id
 
 from e2cnn.group import Group
 from e2cnn.group import Representation
@@ -196,9 +196,9 @@ class Flip2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, Flip2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and axis_id(self.axis) == axis_id(other.axis)
         else:
             return False
 
     def __hash__(self):
-        return hash(self.name)
+        return hash(("Flip2dOnR2", self.fibergroup.name, axis_id(self.axis)))
diff --git a/e2cnn/gspaces/r2/fliprot2d_on_r2.py b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
index 4702c21..d5b098f 100644
--- a/e2cnn/gspaces/r2/fliprot2d_on_r2.py
+++ b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
@@ -5,7 +5,7 @@ from e2cnn import kernels
 from e2cnn import diffops
 
 from .general_r2 import GeneralOnR2
-from .utils import rotate_array
+from .utils import rotate_array, axis_id
 
 from e2cnn.group import Representation
 from e2cnn.group import Group
@@ -295,9 +295,9 @@ class FlipRot2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, FlipRot2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and axis_id(self.axis) == axis_id(other.axis)
         else:
             return False
     
     def __hash__(self):
-        return hash(self.name)
+        return hash(("FlipRot2dOnR2", self.fibergroup.name, axis_id(self.axis)))
diff --git a/e2cnn/gspaces/r2/utils.py b/e2cnn/gspaces/r2/utils.py
index 3bed636..9c49302 100644
--- a/e2cnn/gspaces/r2/utils.py
+++ b/e2cnn/gspaces/r2/utils.py
@@ -14,3 +14,8 @@ def rotate_array(x, angle):
     else:
         return rotate(x, angle * 180.0 / np.pi, (-2, -1), reshape=False, order=2)
 
+
+def axis_id(axis: float) -> int:
+    # Identifies the reflection axis with the given slope (in radians), up to rounding errors.
+    # An axis is a line: slopes which differ by a multiple of pi describe the same reflection.
+    return round(axis / np.pi * 2**30) % 2**30
diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index d844605..e812c6b 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -89,7 +89,7 @@ class FieldType:
         self._field_start = None
         self._field_end = None
 
-        self._hash = hash(self.gspace.name + ': {' + ', '.join([r.name for r in self.representations]) + '}')
+        self._hash = hash((self.gspace, tuple(r.name for r in self.representations)))
 
     @property
     def fibergroup(self) -> Group:
-- 
2.43.0


From d6f4b7de8c2da39ec35700c421cc34a70e3e4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:41 +0000
Subject: [PATCH 12/47] fix: comparing representations of different sizes does
 not fail, equal representations have equal hashes

---
 e2cnn/group/representation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 1647f25..cd4f95b 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -331,15 +331,15 @@ class Representation:
         
         return (self.name == other.name
                 and self.group == other.group
-                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
+                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.supported_nonlinearities == other.supported_nonlinearities)
     
     def __repr__(self) -> str:
         return f"{self.group.name}|{self.name}:{self.size},{len(self.irreps)},{self.change_of_basis.sum()}"
     
     def __hash__(self):
-        return hash(repr(self))
+        return hash((self.group.name, self.name, tuple(self.irreps)))
     
     # TODO when built from "directsum" we can "optimize" the representation by sorting the internal irreps
     #      and permuting the change of basis matrix's columns accordingly. Could be useful when one uses GNORM batchnorm
-- 
2.43.0


From e7a3b026db0d2fe1319c6eef030a87efd252118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:56 +0000
Subject: [PATCH 13/47] fix: GeometricTensor.split does not change the list of
 breaks passed by the caller

---
 e2cnn/nn/geometric_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 457fb07..2a3c708 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -277,7 +277,7 @@ class GeometricTensor:
         if breaks is None:
             breaks = list(range(1, len(self.type)))
             
-        breaks.append(len(self.type))
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From 84d0e3ccb73b4b079ca6bad6df954e7acb224be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:20 +0000
Subject: [PATCH 14/47] fix: MergeModule does not change the list of modules
 passed by the caller

---
 e2cnn/nn/modules/merge_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5350d6e..381124f 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -39,6 +39,9 @@ class MergeModule(EquivariantModule):
 
         super(MergeModule, self).__init__()
         
+        # do not modify the list passed by the caller
+        modules = list(modules)
+        
         labels = []
         
         for i in range(len(modules)):
-- 
2.43.0


From a3a8906b16e0fa6488f7856aa7d69437bc254107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:39 +0000
Subject: [PATCH 15/47] fix: merging accepts a first module with several inputs
 and labels in a list of length one

---
 e2cnn/nn/modules/merge_module.py    | 5 ++++-
 e2cnn/nn/modules/multiple_module.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 381124f..2370a6e 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -55,7 +55,10 @@ class MergeModule(EquivariantModule):
             labels += modules[i][1]
         
         self.in_type = None
-        self.gspace = modules[0][0].in_type.gspace
+        
+        # modules with multiple inputs have a tuple of input types
+        first_type = modules[0][0].in_type
+        self.gspace = first_type[0].gspace if isinstance(first_type, tuple) else first_type.gspace
         
         out_repr = []
         
diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index b417951..3648f1d 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -89,6 +89,8 @@ class MultipleModule(EquivariantModule):
         self.branching = BranchingModule(in_type, labels, reshuffle=reshuffle_level)
 
         for module, l in modules:
+            if isinstance(l, list) and len(l) == 1 and not isinstance(module.in_type, tuple):
+                l = l[0]
             if isinstance(l, str):
                 assert module.in_type == self.branching.out_type[l], f"Label {l}, branch class and module ({module}) class don't match:\n [{module.in_type}] \n [{self.branching.out_type[l]}]\n"
             else:
-- 
2.43.0


From 9dcddbfd99c13791730862e3b0a5d668fea39e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:39 +0000
Subject: [PATCH 16/47] fix: output shapes of MultipleModule and MergeModule
 can be evaluated

---
 e2cnn/nn/modules/merge_module.py    | 2 +-
 e2cnn/nn/modules/multiple_module.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 2370a6e..caef13b 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -129,7 +129,7 @@ class MergeModule(EquivariantModule):
             
             out_shape[1] += os[1]
         
-        return out_shape
+        return tuple(out_shape)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
         pass
\ No newline at end of file
diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index 3648f1d..0177661 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -128,7 +128,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From 727704e652eb37b1b3fa00e251e4aba281b23dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 17/47] fix: output shapes of convolutions with a tuple as
 padding can be evaluated

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 6 ++++--
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 51c760b..890116e 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -400,8 +400,10 @@ class R2Conv(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1b63ae2..1f71d29 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -505,8 +505,10 @@ class R2Diffop(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 1a322106272189d22dec33eb613bd0674f583c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 18/47] fix: R2ConvTransposed announces the output shape of a
 transposed convolution

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2abfea9..e086e0e 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -250,8 +250,8 @@ class R2ConvTransposed(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ho = (hi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+        wo = (wi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From a432f72d5b373ce1c7d4c80093065785ac079865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 19/47] fix: R2ConvTransposed exports its output padding

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index e086e0e..c91fbae 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -369,6 +369,7 @@ class R2ConvTransposed(EquivariantModule):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From c204304402710e7bf682e9703318d1c8d30688c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 20/47] fix: exported convolutions do not share memory with the
 original layer

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 4 ++--
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 890116e..fcabfc9 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -541,9 +541,9 @@ class R2Conv(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1f71d29..45aa59a 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -646,9 +646,9 @@ class R2Diffop(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
-- 
2.43.0


From 95a2c5d558019082787e35ba3078ee8ae4355c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 21/47] fix: the bias buffer of a new grouped transposed
 convolution has the size of the whole output

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index c91fbae..e9c4ee4 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -145,7 +145,7 @@ class R2ConvTransposed(EquivariantModule):
                 
                 self.register_buffer("bias_expansion", bias_expansion)
                 self.bias = Parameter(torch.zeros(trivials), requires_grad=True)
-                self.register_buffer("expanded_bias", torch.zeros(out_type.size))
+                self.register_buffer("expanded_bias", torch.zeros(self.out_type.size))
             else:
                 self.bias = None
                 self.expanded_bias = None
-- 
2.43.0


From cb3fcc0b0c0ccae46fedd71dac049cf8720a3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:46 +0000
Subject: [PATCH 22/47] fix: PointwiseMaxPool exports its ceil_mode

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index cbc9e92..af9250d 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -138,7 +138,7 @@ class PointwiseMaxPool(EquivariantModule):
     
         self.eval()
     
-        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
 
 
 class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
-- 
2.43.0


From fd6d1a7bcb6ef89e6eb35b3c52a8cbcea318a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:46 +0000
Subject: [PATCH 23/47] fix: adaptive pooling announces a flat output shape

---
 e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py | 2 +-
 e2cnn/nn/modules/pooling/pointwise_adaptive_max.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
index e44d2a9..75c83fb 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return (b, self.out_type.size) + tuple(self.output_size)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
index 403b611..079a4dc 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveMaxPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return (b, self.out_type.size) + tuple(self.output_size)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
-- 
2.43.0


From da902c3ff579609a13ca5f2d64689533f4700cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 24/47] fix: R2Upsampling exports its target size

---
 e2cnn/nn/modules/r2upsampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/r2upsampling.py b/e2cnn/nn/modules/r2upsampling.py
index 7d82754..9a776f4 100644
--- a/e2cnn/nn/modules/r2upsampling.py
+++ b/e2cnn/nn/modules/r2upsampling.py
@@ -201,12 +201,14 @@ class R2Upsampling(EquivariantModule):
         
         if self._align_corners is not None:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
                 align_corners=self._align_corners
             )
         else:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
             )
-- 
2.43.0


From 299d0515abde5e0a151d01cac52920ea600629e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:45 +0000
Subject: [PATCH 25/47] fix: pooling announces the output shape of the pooling
 operator, also with ceil_mode

---
 e2cnn/nn/modules/pooling/norm_max.py      | 11 ++++++-----
 e2cnn/nn/modules/pooling/pointwise_avg.py | 15 ++++++---------
 e2cnn/nn/modules/pooling/pointwise_max.py | 15 ++++++---------
 e2cnn/nn/modules/utils.py                 | 16 +++++++++++++++-
 4 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 41113a0..9b79b38 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -8,13 +8,13 @@ from e2cnn.nn import FieldType
 from e2cnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooling_output_size
 
 import torch
 import torch.nn.functional as F
 
 from typing import List, Tuple, Any, Union
 
-import math
 
 
 __all__ = ["NormMaxPool"]
@@ -221,10 +221,11 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho, wo = (
+            pooling_output_size(size, self.kernel_size[i], self.stride[i], self.padding[i],
+                                dilation=self.dilation[i], ceil_mode=self.ceil_mode)
+            for i, size in enumerate((hi, wi))
+        )
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index ce26012..d11bf11 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -5,6 +5,7 @@ from e2cnn.nn import FieldType
 from e2cnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooling_output_size
 
 import torch.nn.functional as F
 import torch
@@ -102,15 +103,11 @@ class PointwiseAvgPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
-        
-        if self.ceil_mode:
-            ho = math.ceil(ho)
-            wo = math.ceil(wo)
-        else:
-            ho = math.floor(ho)
-            wo = math.floor(wo)
+        ho, wo = (
+            pooling_output_size(size, self.kernel_size[i], self.stride[i], self.padding[i],
+                                ceil_mode=self.ceil_mode)
+            for i, size in enumerate((hi, wi))
+        )
 
         return b, self.out_type.size, ho, wo
 
diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index af9250d..aa88f5a 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -5,6 +5,7 @@ from e2cnn.nn import FieldType
 from e2cnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooling_output_size
 
 import torch.nn.functional as F
 import torch
@@ -113,15 +114,11 @@ class PointwiseMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
-        
-        if self.ceil_mode:
-            ho = math.ceil(ho)
-            wo = math.ceil(wo)
-        else:
-            ho = math.floor(ho)
-            wo = math.floor(wo)
+        ho, wo = (
+            pooling_output_size(size, self.kernel_size[i], self.stride[i], self.padding[i],
+                                dilation=self.dilation[i], ceil_mode=self.ceil_mode)
+            for i, size in enumerate((hi, wi))
+        )
 
         return b, self.out_type.size, ho, wo
 
diff --git a/e2cnn/nn/modules/utils.py b/e2cnn/nn/modules/utils.py
index e15c422..e878492 100644
--- a/e2cnn/nn/modules/utils.py
+++ b/e2cnn/nn/modules/utils.py
@@ -4,7 +4,21 @@ from typing import List, Dict, Tuple
 from collections import defaultdict
 
 
-__all__ = ["check_consecutive_numbers", "indexes_from_labels"]
+__all__ = ["check_consecutive_numbers", "indexes_from_labels", "pooling_output_size"]
+
+
+def pooling_output_size(size: int, kernel_size: int, stride: int, padding: int, dilation: int = 1,
+                        ceil_mode: bool = False) -> int:
+    # size of the output of PyTorch's pooling operators along one dimension
+    steps = size + 2 * padding - dilation * (kernel_size - 1) - 1
+    if not ceil_mode:
+        return steps // stride + 1
+    
+    output_size = -(-steps // stride) + 1
+    # the last pooling window has to start inside the input or its left padding
+    if (output_size - 1) * stride >= size + padding:
+        output_size -= 1
+    return output_size
 
 
 def check_consecutive_numbers(list: List[int]) -> bool:
-- 
2.43.0


From 50237d9221fcb2c4c6c40a6800ee7feb6e24f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:50 +0000
Subject: [PATCH 26/47] fix: PointwiseMaxPoolAntialiased announces its output
 shape also with padding

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index aa88f5a..912aeaa 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -232,6 +232,23 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
 
+    def evaluate_output_shape(self, input_shape: Tuple[int, int, int, int]) -> Tuple[int, int, int, int]:
+        assert len(input_shape) == 4
+        assert input_shape[1] == self.in_type.size
+
+        b, c, hi, wi = input_shape
+
+        # the max operation is evaluated densely and, then, the blurred output is sub-sampled
+        ho, wo = (
+            pooling_output_size(
+                pooling_output_size(size, self.kernel_size[i], 1, self.padding[i], ceil_mode=self.ceil_mode),
+                self.filter.shape[2 + i], self.stride[i], self._pad[i]
+            )
+            for i, size in enumerate((hi, wi))
+        )
+
+        return b, self.out_type.size, ho, wo
+
     def export(self):
         r"""
         Export this module to a normal PyTorch :class:`torch.nn.MaxPool2d` module and set to "eval" mode.
-- 
2.43.0


From 501e5dd54fcbe3ddd587d209e4adc400ac6631ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:12 +0000
Subject: [PATCH 27/47] fix: FieldDropout with probability 1 drops all fields
 instead of returning NaN, with probability 0 none

---
 e2cnn/nn/modules/dropout/field.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 9082c0d..8f95d70 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -29,14 +29,17 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
             device = input.device
             mask = torch.cuda.FloatTensor(*shape, device=device)
         
-        mask = mask.uniform_() > p
+        mask = mask.uniform_() >= p
         mask = mask.to(torch.float)
         
+        if p < 1.:
+            mask /= 1. - p
+        
         if inplace:
-            input *= mask / (1. - p)
+            input *= mask
             return input
         else:
-            return input * mask / (1. - p)
+            return input * mask
     else:
         return input
 
-- 
2.43.0


From 2ccec470ebf6f26b1d611784423df8202512f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:29 +0000
Subject: [PATCH 28/47] fix: in-place FieldDropout also drops fields which are
 not contiguous

---
 e2cnn/nn/modules/dropout/field.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 8f95d70..40c3122 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -141,6 +141,8 @@ class FieldDropout(EquivariantModule):
         
         if not self.inplace:
             output = torch.empty_like(input)
+        else:
+            output = input
 
         # iterate through all field sizes
         for s in self._order:
@@ -158,12 +160,9 @@ class FieldDropout(EquivariantModule):
             else:
                 # otherwise we have to use indexing
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
-                if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
-                    output[:, indices, ...] = out.view(shape)
-            
-        if self.inplace:
-            output = input
+                # indexing builds a copy of the input so the result has to be written also if working in-place
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                output[:, indices, ...] = out.view(shape)
         
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
-- 
2.43.0


From 44d8ff825b1ab17aaeb6225043e0fdc3b21bdae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:50 +0000
Subject: [PATCH 29/47] fix: resetting norm batch normalizations works without
 affine weights and restores the initial weights

---
 e2cnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 e2cnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/induced_norm.py b/e2cnn/nn/modules/batchnormalization/induced_norm.py
index d3996ba..888b4da 100644
--- a/e2cnn/nn/modules/batchnormalization/induced_norm.py
+++ b/e2cnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/e2cnn/nn/modules/batchnormalization/norm.py b/e2cnn/nn/modules/batchnormalization/norm.py
index f952953..01267f8 100644
--- a/e2cnn/nn/modules/batchnormalization/norm.py
+++ b/e2cnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From 4a2116e64b14a6e1698b8ad560057438ad740d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:50 +0000
Subject: [PATCH 30/47] fix: VectorFieldNonLinearity supports several fields of
 C_2

---
 e2cnn/nn/modules/nonlinearities/vectorfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/nonlinearities/vectorfield.py b/e2cnn/nn/modules/nonlinearities/vectorfield.py
index 41054b6..cf0744f 100644
--- a/e2cnn/nn/modules/nonlinearities/vectorfield.py
+++ b/e2cnn/nn/modules/nonlinearities/vectorfield.py
@@ -86,8 +86,11 @@ class VectorFieldNonLinearity(EquivariantModule):
         
         # to build the output vectors, take the cosine and the sine of the argmax angle
         # and multiply the 2-dimensional vector by the activation value
-        output[:, ::2, ...] = torch.cos(max_angles) * max_activations
-        output[:, 1::2, ...] = torch.sin(max_angles) * max_activations
+        # (the frequency 1 representation of C_2 is 1-dimensional and contains only the cosine)
+        size = self.out_type.size // len(self.out_type)
+        output[:, ::size, ...] = torch.cos(max_angles) * max_activations
+        if size == 2:
+            output[:, 1::2, ...] = torch.sin(max_angles) * max_activations
         
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
-- 
2.43.0


From d0077cff06bb303cbdb718e43a72b6fd11614316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:28 +0000
Subject: [PATCH 31/47] fix: load_cache makes the stored discretizations
 available

---
 e2cnn/diffops/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8a0ffe5..8d4b057 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -40,7 +40,7 @@ def load_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
     if os.path.exists(path):
         print("Loading cached Diffops")
         with open(path, "rb") as f:
-            _DIFFOP_CACHE = pickle.load(f)
+            _DIFFOP_CACHE.update(pickle.load(f))
     else:
         print("Diffop cache not found, skipping")
 
-- 
2.43.0


From c7ade281f4d5b6c63084e7edfa86a75a4e3b9660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:28 +0000
Subject: [PATCH 32/47] fix: store_cache replaces the file atomically and
 accepts a path without directory

---
 e2cnn/diffops/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8d4b057..5350ff8 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -56,9 +56,14 @@ def store_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
         
     """
     directory = os.path.dirname(path)
-    os.makedirs(directory, exist_ok=True)
-    with open(path, "w+b") as f:
+    if directory:
+        os.makedirs(directory, exist_ok=True)
+    # write to another file first, such that the file is never left incomplete and is not mixed up with the one of
+    # another process
+    tmp_path = f"{path}.{os.getpid()}.tmp"
+    with open(tmp_path, "w+b") as f:
         pickle.dump(_DIFFOP_CACHE, f)
+    os.replace(tmp_path, path)
 
 
 def discretize_homogeneous_polynomial(
-- 
2.43.0


From 16952e7fd4040669f72d8e98888a95756f0e9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:27 +0000
Subject: [PATCH 33/47] fix: convolutions with any padding mode can be exported
 with torch 2.0 to 2.4

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index fcabfc9..adbfbb6 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -513,7 +513,7 @@ class R2Conv(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 45aa59a..3b3895b 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -618,7 +618,7 @@ class R2Diffop(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
-- 
2.43.0


From d8554d52c0d2ccd8b412194d30b5f903cb592e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:27 +0000
Subject: [PATCH 34/47] fix: parameters can be loaded in layers with
 interleaved fields of size one

---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index 21e7b20..5fe0794 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -138,8 +138,9 @@ class BlocksBasisExpansion(BasisExpansion):
 
             else:
                 out_indices, in_indices = torch.meshgrid([_out_indices[io_pair[1]], _in_indices[io_pair[0]]])
-                in_indices = in_indices.reshape(-1)
-                out_indices = out_indices.reshape(-1)
+                # `contiguous()` as `meshgrid` returns views in which several elements share the same memory
+                in_indices = in_indices.reshape(-1).contiguous()
+                out_indices = out_indices.reshape(-1).contiguous()
                 
                 # register the indices tensors and the bases tensors as parameters of this module
                 self.register_buffer('in_indices_{}'.format(io_pair), in_indices)
-- 
2.43.0


From 0d9a71a28cf6859ffa5cbe0f018af0f7c081d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:58 +0000
Subject: [PATCH 35/47] fix: exported batch normalizations do not share memory
 with the original layer

---
 e2cnn/nn/modules/batchnormalization/inner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/batchnormalization/inner.py b/e2cnn/nn/modules/batchnormalization/inner.py
index 145d36d..3c95a80 100644
--- a/e2cnn/nn/modules/batchnormalization/inner.py
+++ b/e2cnn/nn/modules/batchnormalization/inner.py
@@ -200,7 +200,7 @@ class InnerBatchNorm(EquivariantModule):
             
             batchnorm.running_var.data[start:end] = bn.running_var.data.view(n, 1).expand(n, s).reshape(-1)
             batchnorm.running_mean.data[start:end] = bn.running_mean.data.view(n, 1).expand(n, s).reshape(-1)
-            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data
+            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data.clone()
 
             if num_batches_tracked is None:
                 num_batches_tracked = bn.num_batches_tracked.data
-- 
2.43.0


From acacada7ac222f4d98bb059029c1fc5ba0fba730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:44 +0000
Subject: [PATCH 36/47] fix: a direct sum in another basis only supports the
 non-linearities which are still equivariant

---
 e2cnn/group/representation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index cd4f95b..4e2843c 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -456,14 +456,23 @@ def directsum(reprs: List[e2cnn.group.Representation],
         cob_inv[p:p + r.size, p:p + r.size] = r.change_of_basis_inv
         p += r.size
 
+    supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
+    
     if change_of_basis is not None:
+        # only keep the non-linearities which are still equivariant after the change of basis
+        preserved = {'gated'}
+        if np.allclose(change_of_basis @ change_of_basis.T, np.eye(size)):
+            preserved.add('norm')
+            if np.allclose(change_of_basis, np.abs(np.round(change_of_basis))):
+                preserved.update(['pointwise', 'concatenated'])
+        supported_nonlinearities &= preserved
+        
         change_of_basis = change_of_basis @ cob
         change_of_basis_inv = sp.linalg.inv(change_of_basis)
     else:
         change_of_basis = cob
         change_of_basis_inv = cob_inv
 
-    supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
     
     return Representation(group, name, irreps, change_of_basis, supported_nonlinearities, change_of_basis_inv=change_of_basis_inv)
 
-- 
2.43.0


From 31cab22d4cc2221f827ae19c374235e5e5e2fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:44 +0000
Subject: [PATCH 37/47] fix: norm poolings refuse representations which do not
 preserve the norm

---
 e2cnn/nn/modules/invariantmaps/norm.py | 4 ++++
 e2cnn/nn/modules/pooling/norm_max.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/e2cnn/nn/modules/invariantmaps/norm.py b/e2cnn/nn/modules/invariantmaps/norm.py
index 92d1482..f2b01df 100644
--- a/e2cnn/nn/modules/invariantmaps/norm.py
+++ b/e2cnn/nn/modules/invariantmaps/norm.py
@@ -32,6 +32,10 @@ class NormPool(EquivariantModule):
         
         super(NormPool, self).__init__()
 
+        for r in in_type.representations:
+            assert 'norm' in r.supported_nonlinearities, \
+                'Error! Representation "{}" does not support "norm" non-linearity'.format(r.name)
+
         self.space = in_type.gspace
         self.in_type = in_type
         
diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 9b79b38..eba1163 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -52,6 +52,10 @@ class NormMaxPool(EquivariantModule):
         
         super(NormMaxPool, self).__init__()
 
+        for r in in_type.representations:
+            assert 'norm' in r.supported_nonlinearities, \
+                'Error! Representation "{}" does not support "norm" non-linearity'.format(r.name)
+
         self.space = in_type.gspace
         self.in_type = in_type
         self.out_type = in_type
-- 
2.43.0


From e5333e8285ccfac685f256e2a6a5972917d9413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:18 +0000
Subject: [PATCH 38/47] fix: equal ConcatenatedNonLinearity modules have equal
 output types

---
 e2cnn/nn/modules/nonlinearities/concatenated.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/nonlinearities/concatenated.py b/e2cnn/nn/modules/nonlinearities/concatenated.py
index 4df1959..36c2367 100644
--- a/e2cnn/nn/modules/nonlinearities/concatenated.py
+++ b/e2cnn/nn/modules/nonlinearities/concatenated.py
@@ -19,6 +19,9 @@ __all__ = ["ConcatenatedNonLinearity"]
 
 class ConcatenatedNonLinearity(EquivariantModule):
     
+    # the output representations built so far
+    _transformed = {}
+    
     def __init__(self, in_type: FieldType, function: str = 'c_relu'):
         r"""
         
@@ -168,9 +171,9 @@ class ConcatenatedNonLinearity(EquivariantModule):
         # the name of the new representation
         name = "concatenated_{}".format(representation.name)
         
-        if name in group.representations:
+        if representation in ConcatenatedNonLinearity._transformed:
             # if the representation has already been built, return it
-            r = group.representations[name]
+            r = ConcatenatedNonLinearity._transformed[representation]
         else:
             # otherwise, build the new representation
             
@@ -230,6 +233,7 @@ class ConcatenatedNonLinearity(EquivariantModule):
             
             # build the output representation
             r = build_from_discrete_group_representation(rep, name, group, supported_nonlinearities=nonlinearities)
+            ConcatenatedNonLinearity._transformed[representation] = r
         
         return r
 
-- 
2.43.0


From c7753c685304a22fa4a5617175b1a6db6e7a429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:29 +0000
Subject: [PATCH 39/47] fix: generic batch normalization accepts interleaved
 fields in a changed basis

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 5dfbc52..1ad0dd5 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -257,9 +257,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, h, w)
+                output[:, indices, ...] = normalized.reshape(b, -1, h, w)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, h, w)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, h, w)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
-- 
2.43.0


From fb0efa4ab2e07de3fd16965a5becec6ee64bef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:23 +0000
Subject: [PATCH 40/47] fix: indexing a geometric tensor out of range does not
 return another field

---
 e2cnn/nn/geometric_tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 2a3c708..3264740 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -473,6 +473,8 @@ class GeometricTensor:
                 if idx < 0:
                     # convert a negative index into a positive index
                     idx = idx_max[i] + idx
+                if idx < 0 or (i == 1 and idx >= idx_max[i]):
+                    raise IndexError(f'Index {expanded_idxs[i]} is out of range for axis {i} of size {idx_max[i]}')
                 expanded_idxs[i] = slice(idx, idx+1, 1)
         
         if len(expanded_idxs) == 1:
@@ -486,8 +488,8 @@ class GeometricTensor:
             # contiguous slice over the channels.
             # The slice will start from the first channel of the first field and will stop at the last channel
             # of the last field
-            start = expanded_idxs[1].start if expanded_idxs[1].start is not None else 0
-            stop = expanded_idxs[1].stop if expanded_idxs[1].stop is not None else len(self.type)
+            start, stop, _ = expanded_idxs[1].indices(len(self.type))
+            assert start < stop, 'Error! The slice does not contain any field'
             channel_idxs = slice(
                 self.type.fields_start[start],
                 self.type.fields_end[stop-1],
-- 
2.43.0


From d2384829af924e78c548e80bd6efb076e21e8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:26 +0000
Subject: [PATCH 41/47] fix: branching accepts the documented reshuffling by
 type

---
 e2cnn/nn/modules/branching_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/branching_module.py b/e2cnn/nn/modules/branching_module.py
index 339b13a..b230b21 100644
--- a/e2cnn/nn/modules/branching_module.py
+++ b/e2cnn/nn/modules/branching_module.py
@@ -63,7 +63,7 @@ class BranchingModule(EquivariantModule):
         
         assert isinstance(in_type.gspace, GeneralOnR2)
         
-        assert 0 <= reshuffle < 3
+        assert 0 <= reshuffle <= 3
         
         super(BranchingModule, self).__init__()
         
-- 
2.43.0


From 4572148ea136391c8085c140b842c73e1beb76ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 42/47] fix: converting a layer does not convert other layers
 using the same basis

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index a1062db..101c961 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -4,6 +4,7 @@ from .basisexpansion import BasisExpansion
 
 from typing import Callable, Dict, List, Iterable, Union
 
+import copy
 import torch
 import numpy as np
 
@@ -179,7 +180,11 @@ def block_basisexpansion(basis: Basis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, basis_filter)
         
-        return _stored_filters[key]
+        # share the tensors but not the module, otherwise converting a layer (e.g. ``layer.double()``) would also convert
+        # all the other layers using the same basis
+        block_expansion = copy.copy(_stored_filters[key])
+        block_expansion._buffers = block_expansion._buffers.copy()
+        return block_expansion
     
     else:
         return SingleBlockBasisExpansion(basis, points, basis_filter)
-- 
2.43.0


From 0dfa1540dabdcabcc642d8dbebb013cf37372b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 43/47] fix: O(2) is restricted to the shared instances of
 SO(2) and O(2), so equality does not depend on history

---
 e2cnn/group/groups/o2group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index d293526..a2146ee 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -186,12 +186,12 @@ class O2(Group):
         
         if id not in self._subgroups:
             if id[0] is not None and id[1] == -1:
-                sg = O2(self._maximum_frequency)
+                sg = O2._generator(self._maximum_frequency)
                 parent_mapping = lambda e, axis=axis: (e[0], e[1] + e[0]*axis)
                 child_mapping = lambda e, axis=axis: (e[0], e[1] - e[0]*axis)
 
             elif id[0] is None and id[1] == -1:
-                sg = SO2(self._maximum_frequency)
+                sg = SO2._generator(self._maximum_frequency)
                 parent_mapping = lambda e, axis=axis: (0, e)
                 child_mapping = lambda e: None if e[0] != 0 else e[1]
                 
-- 
2.43.0


From 311704636e2011ed77744a4b9610ea8fd356fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 44/47] fix: comparing irrep kernel or operator bases of
 different dimension raised instead of returning False

---
 e2cnn/diffops/irreps_basis.py | 10 +++++-----
 e2cnn/kernels/irreps_basis.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 49c9d30..1ca5539 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -125,7 +125,7 @@ class R2FlipsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis or self.dim != other.dim:
             return False
         else:
             return np.allclose(self.mu, other.mu) and self.invert == other.invert
@@ -349,7 +349,7 @@ class R2DiscreteRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2DiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.dim != other.dim:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -581,7 +581,7 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis or self.dim != other.dim:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -728,7 +728,7 @@ class R2ContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2ContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.dim != other.dim:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -888,7 +888,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis or self.dim != other.dim:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index 493ee43..6d7b1eb 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -174,7 +174,7 @@ class R2FlipsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis or self.dim != other.dim:
             return False
         else:
             return np.allclose(self.mu, other.mu) and np.allclose(self.gamma, other.gamma)
@@ -434,7 +434,7 @@ class R2DiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2DiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.dim != other.dim:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -623,7 +623,7 @@ class R2ContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2ContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.dim != other.dim:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis or self.dim != other.dim:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis or self.dim != other.dim:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 84d102fb02d0763cca451e04dbab14f9082d5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 45/47] fix: filters stored in evaluation mode kept the
 autograd graph of the expansion (second backward and deepcopy failed)

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 e2cnn/nn/modules/r2_conv/r2convolution.py             | 4 ++--
 e2cnn/nn/modules/r2_conv/r2diffop.py                  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index e9c4ee4..0f52ea0 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -236,9 +236,9 @@ class R2ConvTransposed(EquivariantModule):
     
             _filter, _bias = self.expand_parameters()
             
-            self.register_buffer("filter", _filter)
+            self.register_buffer("filter", _filter.detach())
             if _bias is not None:
-                self.register_buffer("expanded_bias", _bias)
+                self.register_buffer("expanded_bias", _bias.detach())
             else:
                 self.expanded_bias = None
 
diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index adbfbb6..504d4d9 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -386,9 +386,9 @@ class R2Conv(EquivariantModule):
             
             _filter, _bias = self.expand_parameters()
     
-            self.register_buffer("filter", _filter)
+            self.register_buffer("filter", _filter.detach())
             if _bias is not None:
-                self.register_buffer("expanded_bias", _bias)
+                self.register_buffer("expanded_bias", _bias.detach())
             else:
                 self.expanded_bias = None
 
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 3b3895b..9505f38 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -491,9 +491,9 @@ class R2Diffop(EquivariantModule):
             
             _filter, _bias = self.expand_parameters()
     
-            self.register_buffer("filter", _filter)
+            self.register_buffer("filter", _filter.detach())
             if _bias is not None:
-                self.register_buffer("expanded_bias", _bias)
+                self.register_buffer("expanded_bias", _bias.detach())
             else:
                 self.expanded_bias = None
 
-- 
2.43.0


From a46c66f7b6be3517ccf2ba623c4432e9feab027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:02 +0000
Subject: [PATCH 46/47] fix: a field type no longer changes with the list of
 representations it was built from

---
 e2cnn/nn/field_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index e812c6b..49fbaaa 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -74,7 +74,7 @@ class FieldType:
         self.gspace = gspace
         
         # list: List of representations of each feature field composing the feature space of this type
-        self.representations = representations
+        self.representations = list(representations)
         
         # int: size of the field associated to this type.
         # as the representation associated to the field is the direct sum of the representations
-- 
2.43.0


From fffe5a4e133c220bb030d681641ff6a21b4c76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:58 +0000
Subject: [PATCH 47/47] fix: default rings of a dilated transposed convolution
 ignored the dilation

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 0f52ea0..281b123 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -492,7 +492,8 @@ def compute_basis_params(kernel_size: int,
         # n_rings = s // 2 + 1
         
         # rings = torch.linspace(1 - s % 2, s // 2, n_rings)
-        rings = torch.linspace(0, (kernel_size - 1) // 2, n_rings).tolist()
+        rings = torch.linspace(0, (kernel_size - 1) // 2, n_rings) * dilation
+        rings = rings.tolist()
     
     assert all([max_radius >= r >= 0 for r in rings])
     
-- 
2.43.0

