From b99f9ec0625b2f7db65e3791ea2eb4fd307bbb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 01/73] fix: read the sine of a MAT-parametrised element of C_N
 / D_N from both off-diagonal entries

---
 escnn/group/groups/cyclicgroup.py   | 2 +-
 escnn/group/groups/dihedralgroup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/group/groups/cyclicgroup.py b/escnn/group/groups/cyclicgroup.py
index f6772ba..f6e1a5c 100644
--- a/escnn/group/groups/cyclicgroup.py
+++ b/escnn/group/groups/cyclicgroup.py
@@ -198,7 +198,7 @@ class CyclicGroup(Group):
             assert np.allclose(element @ element.T, np.eye(2))
     
             cos = (element[0, 0] + element[1, 1]) / 2.
-            sin = (element[1, 0] - element[1, 0]) / 2.
+            sin = (element[1, 0] - element[0, 1]) / 2.
     
             element = np.arctan2(sin, cos)
             p_from = 'radians'
diff --git a/escnn/group/groups/dihedralgroup.py b/escnn/group/groups/dihedralgroup.py
index 3c5073f..dade72c 100644
--- a/escnn/group/groups/dihedralgroup.py
+++ b/escnn/group/groups/dihedralgroup.py
@@ -231,7 +231,7 @@ class DihedralGroup(Group):
             assert np.allclose(rotation @ rotation.T, np.eye(2))
     
             cos = (rotation[0, 0] + rotation[1, 1]) / 2.
-            sin = (rotation[1, 0] - rotation[1, 0]) / 2.
+            sin = (rotation[1, 0] - rotation[0, 1]) / 2.
     
             rotation = np.arctan2(sin, cos)
             p_from = 'radians'
-- 
2.43.0


From 2813c371f73081a2e576750dcd5497402ae69264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 02/73] fix: D1 and D2 are abelian groups

---
 escnn/group/groups/dihedralgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/dihedralgroup.py b/escnn/group/groups/dihedralgroup.py
index dade72c..da62646 100644
--- a/escnn/group/groups/dihedralgroup.py
+++ b/escnn/group/groups/dihedralgroup.py
@@ -84,7 +84,7 @@ class DihedralGroup(Group):
         
         assert (isinstance(N, int) and N > 0), N
         
-        super(DihedralGroup, self).__init__("D%d" % N, False, False)
+        super(DihedralGroup, self).__init__("D%d" % N, False, N <= 2)
         
         self.rotation_order = N
         
-- 
2.43.0


From d82c3eeaa239990444dbbfa6fb272af60643bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:03 +0000
Subject: [PATCH 03/73] fix: restrict the first factor of a direct product with
 its own subgroup map

---
 escnn/group/directproduct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/directproduct.py b/escnn/group/directproduct.py
index a16c3ca..ff8a6e5 100644
--- a/escnn/group/directproduct.py
+++ b/escnn/group/directproduct.py
@@ -489,7 +489,7 @@ class DirectProductGroup(Group):
             return H1, inclusion_left(self, H1, parent1), restrict_left(self, H1, child1)
         else:
             H = direct_product(H1, H2)
-            return H, inclusion(self, H, parent1, parent2), restrict(self, H, child2, child2)
+            return H, inclusion(self, H, parent1, parent2), restrict(self, H, child1, child2)
 
     def _combine_subgroups(self, sg_id1, sg_id2):
         assert isinstance(sg_id1, tuple) and len(sg_id1) == 2
-- 
2.43.0


From bbc378810bfe71ea7a1eec4814b943113a8054da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:31 +0000
Subject: [PATCH 04/73] fix: octahedral/icosahedral elements whose quaternion
 points opposite to the axis belong to the cyclic subgroup

---
 escnn/group/groups/ico.py  | 6 +++---
 escnn/group/groups/octa.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/escnn/group/groups/ico.py b/escnn/group/groups/ico.py
index f13ca76..3fb88fa 100644
--- a/escnn/group/groups/ico.py
+++ b/escnn/group/groups/ico.py
@@ -621,9 +621,9 @@ def ico_to_cn(adj: GroupElement, cn: escnn.group.CyclicGroup, axis: np.ndarray):
 
         if np.allclose(n, 0.):
             return cn.identity
-        elif np.allclose(v / n, axis):
-            # if the rotation is along the axis
-            s, c = n, e[-1]
+        elif np.allclose(v / n, axis) or np.allclose(v / n, -axis):
+            # if the rotation is along the axis (q and -q represent the same rotation)
+            s, c = np.dot(v, axis), e[-1]
             theta = 2 * np.arctan2(s, c)
             try:
                 return cn.element(theta, 'radians')
diff --git a/escnn/group/groups/octa.py b/escnn/group/groups/octa.py
index f9f95f8..d9dde69 100644
--- a/escnn/group/groups/octa.py
+++ b/escnn/group/groups/octa.py
@@ -581,9 +581,9 @@ def octa_to_cn(adj: GroupElement, cn: escnn.group.CyclicGroup, axis: np.ndarray)
 
         if np.allclose(n, 0.):
             return cn.identity
-        elif np.allclose(v / n, axis):
-            # if the rotation is along the axis
-            s, c = n, e[-1]
+        elif np.allclose(v / n, axis) or np.allclose(v / n, -axis):
+            # if the rotation is along the axis (q and -q represent the same rotation)
+            s, c = np.dot(v, axis), e[-1]
             theta = 2 * np.arctan2(s, c)
             try:
                 return cn.element(theta, 'radians')
-- 
2.43.0


From 132aac424545faa2afef9ea8d72da23352e62603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:31 +0000
Subject: [PATCH 05/73] fix: wrap the index when restricting a rotation close
 to a full turn to a discrete subgroup of SO(2) / O(2)

---
 escnn/group/groups/o2group.py  | 2 +-
 escnn/group/groups/so2group.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/group/groups/o2group.py b/escnn/group/groups/o2group.py
index 1f60772..16de960 100644
--- a/escnn/group/groups/o2group.py
+++ b/escnn/group/groups/o2group.py
@@ -848,7 +848,7 @@ def o2_to_dn(axis: float, dn: escnn.group.DihedralGroup):
         f, rot = e.to('radians')
 
         if utils.cycle_isclose(rot - f * axis, 0., 2. * np.pi / dn.rotation_order):
-            return dn.element((f, int(round((rot - f * axis) * dn.rotation_order / (2. * np.pi)))))
+            return dn.element((f, int(round((rot - f * axis) * dn.rotation_order / (2. * np.pi))) % dn.rotation_order))
         else:
             return None
 
diff --git a/escnn/group/groups/so2group.py b/escnn/group/groups/so2group.py
index 4f68e3b..4208e05 100644
--- a/escnn/group/groups/so2group.py
+++ b/escnn/group/groups/so2group.py
@@ -579,7 +579,7 @@ def _build_child_map(sg: 'CyclicGroup'):
         if not utils.cycle_isclose(radians, 0., 2. * np.pi / sg.order()):
             return None
         else:
-            return sg.element(int(round(radians * sg.order() / (2. * np.pi))))
+            return sg.element(int(round(radians * sg.order() / (2. * np.pi))) % sg.order())
 
     return child_mapping
 
-- 
2.43.0


From 81fb85e66b8c94212e68ab6575909972b1a53007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:31 +0000
Subject: [PATCH 06/73] fix: restriction of an octahedral irrep to the trivial
 subgroup

---
 escnn/group/groups/octa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/octa.py b/escnn/group/groups/octa.py
index d9dde69..8e019fb 100644
--- a/escnn/group/groups/octa.py
+++ b/escnn/group/groups/octa.py
@@ -304,7 +304,7 @@ class Octahedral(Group):
                 irreps = irr.irreps
             elif sg_id == (False, 1):
                 change_of_basis = np.eye(irr.size)
-                irreps = [(1,)]*irr.size
+                irreps = [(0,)]*irr.size
             else:
                 raise NotImplementedError()
 
-- 
2.43.0


From 36256df41d3a592ed3f8fe4bbb1b2c398a2d14b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 07/73] fix: mirror plane of an O(3) cone subgroup lies along
 half the given angle, not along its opposite

---
 escnn/group/groups/o3group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index ede614f..3aed731 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -496,7 +496,7 @@ class O3(Group):
             flip_axis = id[1] / 2.
             flip = np.asarray([0., 0., np.sin(flip_axis / 2), np.cos(flip_axis / 2)])
             adj = id[-1]
-            adj = self.element((0, flip), 'Q') @ adj
+            adj = (~self.element((0, flip), 'Q')) @ adj
             id = ('cone', id[2], adj)
 
         return id
-- 
2.43.0


From c5d20745f7a2b67db5152c03cf157023839ba563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:58 +0000
Subject: [PATCH 08/73] fix: quotient and induced representations built with
 given coset representatives are not taken from another choice's cache

---
 escnn/group/group.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index ff18e07..17bd344 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -509,6 +509,9 @@ class Group(ABC):
 
         if name is None:
             name = f"quotient[{subgroup_id}]"
+            if representatives is not None:
+                # the basis depends on the choice of coset representatives and on their order
+                name += f"[{', '.join(str(r) for r in representatives)}]"
         
         if name not in self.representations:
             subgroup, _, _ = self.subgroup(subgroup_id)
@@ -558,6 +561,9 @@ class Group(ABC):
 
         if name is None:
             name = f"induced[{subgroup_id}][{repr.name}]"
+            if representatives is not None:
+                # the basis depends on the choice of coset representatives and on their order
+                name += f"[{', '.join(str(r) for r in representatives)}]"
 
         if name not in self.representations:
 
-- 
2.43.0


From b09692563a1c12ff4c17505add4b50004c32536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:54 +0000
Subject: [PATCH 09/73] fix: a direct sum followed by a change of basis only
 supports the nonlinearities that survive it

---
 escnn/group/representation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/escnn/group/representation.py b/escnn/group/representation.py
index 8fddb97..8443304 100644
--- a/escnn/group/representation.py
+++ b/escnn/group/representation.py
@@ -573,15 +573,24 @@ def directsum(reprs: List[escnn.group.Representation],
         cob_inv[p:p + r.size, p:p + r.size] = r.change_of_basis_inv
         p += r.size
 
+    supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
+
     if change_of_basis is not None:
+        change_of_basis = np.asarray(change_of_basis)
+        orthogonal = np.allclose(change_of_basis @ change_of_basis.T, np.eye(size))
+        if not orthogonal:
+            # only the non-linearities which commute with any change of basis are still supported
+            supported_nonlinearities &= {'gated'}
+        elif not np.isin(change_of_basis, [0., 1.]).all():
+            # unless the new basis is just a permutation of the channels
+            supported_nonlinearities &= {'norm', 'gated'}
+
         change_of_basis = change_of_basis @ cob
         change_of_basis_inv = sp.linalg.inv(change_of_basis)
     else:
         change_of_basis = cob
         change_of_basis_inv = cob_inv
 
-    supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
-    
     return Representation(group, name, irreps, change_of_basis, supported_nonlinearities, change_of_basis_inv=change_of_basis_inv)
 
 
-- 
2.43.0


From 17b45d1422adb6b1c88636641062e866c97a1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 10/73] fix: comparing representations of different sizes with
 the same name

---
 escnn/group/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/representation.py b/escnn/group/representation.py
index 8443304..ecae14a 100644
--- a/escnn/group/representation.py
+++ b/escnn/group/representation.py
@@ -372,8 +372,8 @@ class Representation:
         
         return (self.name == other.name
                 and self.group == other.group
-                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
+                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.supported_nonlinearities == other.supported_nonlinearities)
     
     def __repr__(self) -> str:
-- 
2.43.0


From 91eb37cb10af99c809d08e4fb5152c52b67f817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 11/73] fix: get_irrep_id returns an id when given the name of
 an irrep

---
 escnn/group/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index 17bd344..c5a69dc 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -863,7 +863,7 @@ class Group(ABC):
         elif isinstance(psi, str):
             psi = self.representations[psi]
             assert isinstance(psi, escnn.group.IrreducibleRepresentation)
-            return psi
+            return psi.id
         elif isinstance(psi, tuple):
             return self.irrep(*psi).id
         else:
-- 
2.43.0


From bb2e3129c4d12af086bc1c0a22d50c09d1244634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 12/73] fix: decompose a representation of the trivial group,
 which has no generators

---
 escnn/group/_numerical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/_numerical.py b/escnn/group/_numerical.py
index 42e9e3b..aa7f9f0 100644
--- a/escnn/group/_numerical.py
+++ b/escnn/group/_numerical.py
@@ -413,7 +413,7 @@ def decompose_representation_finitegroup(
     irreps = [(group.irrep(*id), m) for (id, m) in multiplicities]
 
     representation = {
-        g: representation[g] for g in group.generators
+        g: representation[g] for g in (group.generators or [group.identity])
     }
 
     # compute te Change-Of-Basis matrix that transform the direct sum of irreps in the representation
-- 
2.43.0


From 35489a8c2c45e4f86e23a1285f3cb362751b23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 13/73] fix: aliased icosahedral kernels accept an adjoint (it
 is a 3x3 matrix)

---
 escnn/kernels/r3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/kernels/r3.py b/escnn/kernels/r3.py
index fdcdab2..6a4b3d4 100644
--- a/escnn/kernels/r3.py
+++ b/escnn/kernels/r3.py
@@ -315,7 +315,7 @@ def _kernels_aliased_Ico_act_R3(in_repr: Representation, out_repr: Representatio
 
     basis = UnionBasis(basis_list)
 
-    if adjoint is not None and not np.allclose(adjoint, np.eye(2)):
+    if adjoint is not None and not np.allclose(adjoint, np.eye(3)):
         assert adjoint.shape == (3, 3)
         basis = AdjointBasis(basis, adjoint)
 
-- 
2.43.0


From 004d9a048c37d2576526f0f2041142a409a5beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 14/73] fix: sampling a kernel basis of representations with a
 change of basis is differentiable in the points

---
 escnn/kernels/steerable_basis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/escnn/kernels/steerable_basis.py b/escnn/kernels/steerable_basis.py
index 5091f6f..7e54c07 100644
--- a/escnn/kernels/steerable_basis.py
+++ b/escnn/kernels/steerable_basis.py
@@ -466,13 +466,15 @@ class SteerableKernelBasis(KernelBasis):
         if out is None:
             out = {j: None for j in self.js}
             
+        # the blocks in `out` can be views of the same tensor: writing through a new view of each block keeps the
+        # samples differentiable with respect to the points
         for j in samples.keys():
             if self.A_inv is not None and self.B is not None:
-                out[j][:] = torch.einsum("no,pboi,ij->pbnj", self.B.to(samples[j].dtype), samples[j], self.A_inv.to(samples[j].dtype))
+                out[j][:].copy_(torch.einsum("no,pboi,ij->pbnj", self.B.to(samples[j].dtype), samples[j], self.A_inv.to(samples[j].dtype)))
             elif self.A_inv is not None:
-                out[j][:] = torch.einsum("pboi,ij->pboj", samples[j], self.A_inv.to(samples[j].dtype))
+                out[j][:].copy_(torch.einsum("pboi,ij->pboj", samples[j], self.A_inv.to(samples[j].dtype)))
             elif self.B is not None:
-                out[j][:] = torch.einsum("no,pboi->pbni", self.B.to(samples[j].dtype), samples[j])
+                out[j][:].copy_(torch.einsum("no,pboi->pbni", self.B.to(samples[j].dtype), samples[j]))
             else:
                 out[j][...] = samples[j]
         
-- 
2.43.0


From 9fddfe226fbe13d5b295d26869d6bd19d6c9f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:32 +0000
Subject: [PATCH 15/73] fix: attributes of the filters of one frequency when
 part of the basis is filtered out

---
 escnn/kernels/polar_basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index be7d571..e765507 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -428,7 +428,8 @@ class SphericalShellsBasis(SteerableFiltersBasis):
             return
 
         idx = sum(self.multiplicity((_j%2, _j)) for _j in range(j))
-        i = 0
+        # position of the first filter of frequency `j`
+        i = j ** 2 * len(self.radial)
 
         # since this methods return iterables of attributes built on the fly, load all attributes first and then
         # iterate on these lists
@@ -865,7 +866,8 @@ class CircularShellsBasis(SteerableFiltersBasis):
 
         idx = sum(self.multiplicity((int(_j>0),_j)) for _j in range(j))
         dim = 2 if j > 0 else 1
-        i = 0
+        # position of the first filter of frequency `j`
+        i = (2 * j - 1) * len(self.radial) if j > 0 else 0
 
         attr1 = {
             'irrep:' + k: v
-- 
2.43.0


From 7c462214cb778c16fba7e367c36c36789068572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:55 +0000
Subject: [PATCH 16/73] fix: steerable_attrs of circular and spherical shells
 (unfiltered bases, radial attributes)

---
 escnn/kernels/polar_basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index e765507..47599cc 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -258,6 +258,7 @@ class SphericalShellsBasis(SteerableFiltersBasis):
                 )
                 for j in range(L+1)
             ]
+            self._num_inv_spaces = (L + 1) * len(radial)
 
         super(SphericalShellsBasis, self).__init__(G, G.standard_representation(), js)
 
@@ -405,10 +406,10 @@ class SphericalShellsBasis(SteerableFiltersBasis):
         attr.update(attr2)
 
         j = (j%2, j) # the id of the O(3) irrep
-        attr = {
+        attr.update({
             'irrep:'+k: v
             for k, v in self.group.irrep(*j).attributes.items()
-        }
+        })
         attr["j"] = j
 
         attr["idx"] = idx
@@ -691,6 +692,7 @@ class CircularShellsBasis(SteerableFiltersBasis):
                 )
                 for j in range(L + 1)
             ]
+            self._num_inv_spaces = (L + 1) * len(radial)
 
         self.axis = axis
 
-- 
2.43.0


From 76a6e1a3b4d3976f47979829b403020218cfbc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:55 +0000
Subject: [PATCH 17/73] fix: index the attributes of circular shells

---
 escnn/kernels/polar_basis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index 47599cc..fb3e20e 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -947,9 +947,12 @@ class CircularShellsBasis(SteerableFiltersBasis):
 
         j = (_idx // len(self.radial) + 1) //2
 
-        assert (2*j+1) * len(self.radial) <= _idx < (2*j + 3) * len(self.radial), (_idx, j, self.L, len(self.radial))
+        # number of harmonics with frequency lower than j
+        first = 2*j - 1 if j > 0 else 0
 
-        j_idx = _idx - (2*j +1) * len(self.radial)
+        assert first * len(self.radial) <= _idx < (2*j + 1) * len(self.radial), (_idx, j, self.L, len(self.radial))
+
+        j_idx = _idx - first * len(self.radial)
 
         radial_idx, m = divmod(j_idx, 2 if j>0 else 1)
 
-- 
2.43.0


From c07a6bb567be7cec73d71a023e33d6af8a703a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:55 +0000
Subject: [PATCH 18/73] fix: compare and hash filtered shells by the content of
 their filter, and circular shells also by their axis

---
 escnn/kernels/polar_basis.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index fb3e20e..2304e81 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -151,6 +151,17 @@ def circular_harmonics(points: torch.Tensor, L: int, phase: float = 0.):
     return Y
 
 
+def _same_filter(filter1: torch.Tensor, filter2: torch.Tensor) -> bool:
+    # the masks of two filtered bases; `None` means that nothing is filtered out
+    if filter1 is None or filter2 is None:
+        return filter1 is filter2
+    return torch.equal(filter1.cpu(), filter2.cpu())
+
+
+def _hash_filter(filter: torch.Tensor) -> int:
+    return hash(None if filter is None else filter.cpu().numpy().tobytes())
+
+
 class SphericalShellsBasis(SteerableFiltersBasis):
 
     def __init__(self,
@@ -575,13 +586,13 @@ class SphericalShellsBasis(SteerableFiltersBasis):
             return (
                     self.radial == other.radial and
                     self.L == other.L and
-                    self._filter == other._filter
+                    _same_filter(self._filter, other._filter)
             )
         else:
             return False
     
     def __hash__(self):
-        return self.L + hash(self.radial) + hash(self._filter)
+        return self.L + hash(self.radial) + _hash_filter(self._filter)
 
 
 class CircularShellsBasis(SteerableFiltersBasis):
@@ -1016,11 +1027,12 @@ class CircularShellsBasis(SteerableFiltersBasis):
             return (
                     self.radial == other.radial and
                     self.L == other.L and
-                    self._filter == other._filter
+                    _same_filter(self._filter, other._filter) and
+                    self.axis == other.axis
             )
         else:
             return False
 
     def __hash__(self):
-        return self.L + hash(self.radial) + hash(self._filter)
+        return self.L + hash(self.radial) + _hash_filter(self._filter) + hash(self.axis)
 
-- 
2.43.0


From 15b536b2e15a79655ca5af3f687d2a5298417e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:55 +0000
Subject: [PATCH 19/73] fix: equal adjoint bases have equal hashes

---
 escnn/kernels/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/kernels/basis.py b/escnn/kernels/basis.py
index 5ff9145..4403079 100644
--- a/escnn/kernels/basis.py
+++ b/escnn/kernels/basis.py
@@ -161,7 +161,7 @@ class AdjointBasis(KernelBasis):
             return False
     
     def __hash__(self):
-        return hash(self.adj) + 1000 * hash(self.basis)
+        return hash(tuple(self.adj.shape)) + 1000 * hash(self.basis)
 
 
 class UnionBasis(KernelBasis):
-- 
2.43.0


From 5a618d4dda9ebceb1b09d1c7de41a27bf0f1e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:22 +0000
Subject: [PATCH 20/73] fix: restricting a planar space to a flip subgroup
 whose axis wraps around 2pi

---
 escnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/o2group.py b/escnn/group/groups/o2group.py
index 16de960..632431e 100644
--- a/escnn/group/groups/o2group.py
+++ b/escnn/group/groups/o2group.py
@@ -421,7 +421,7 @@ class O2(Group):
         elif sg_id2[0] is None:
             return sg_id2
         else:
-            flip = sg_id1[0] + inclusion(sg1.element((0, sg_id2[0]))).to('radians')[1]
+            flip = (sg_id1[0] + inclusion(sg1.element((0, sg_id2[0]))).to('radians')[1]) % (2 * np.pi)
             return (flip,) + sg_id2[1:]
 
     def _restrict_irrep(self, irrep: Tuple, id: Tuple[int, int]) -> Tuple[np.matrix, List[Tuple]]:
-- 
2.43.0


From f7c28edf48d3169861ea6522265dbc23c396a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:22 +0000
Subject: [PATCH 21/73] fix: restrict spaces with an inversion symmetry: the
 inversion is kept only by the C_2 subgroup of order 2

---
 escnn/group/groups/o3group.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index 3aed731..3da6d4e 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -767,28 +767,31 @@ class O3(Group):
             
                 if so3_sg_id == (False, -1):
                     # C_2 x SO(2)
-                    sg_id = sg_id2[0], False, sg_id2[1]
+                    sg_id = sg_id2[0] == 2, False, sg_id2[1]
             
                 elif so3_sg_id == (True, -1):
                     # Cylinder,  C_2 x O(2)
-                    sg_id = sg_id2[0], sg_id2[1][0], sg_id2[1][1]
+                    if sg_id2[1][0] is not None:
+                        sg_id = sg_id2[0] == 2, float(sg_id2[1][0]), sg_id2[1][1]
+                    else:
+                        sg_id = sg_id2[0] == 2, False, sg_id2[1][1]
             
                 elif so3_sg_id[0] is False and so3_sg_id[1] > 0:
                     N = so3_sg_id[1]
                 
                     if N == 1:
                         # Inversion subgroup C_2 of O(3)
-                        sg_id = sg_id2, False, 1
+                        sg_id = sg_id2 == 2, False, 1
                     else:
                         # C_2 x C_N
-                        sg_id = sg_id2[0], False, sg_id2[1]
+                        sg_id = sg_id2[0] == 2, False, sg_id2[1]
             
                 elif so3_sg_id[0] is True and so3_sg_id[1] > 1:
                     # Cylinder, C_2 x D_N
                     if sg_id2[1][0] is not None:
-                        sg_id = sg_id2[0], sg_id2[1][0] * 2 * np.pi / so3_sg_id[1], sg_id2[1][1]
+                        sg_id = sg_id2[0] == 2, sg_id2[1][0] * 2 * np.pi / so3_sg_id[1], sg_id2[1][1]
                     else:
-                        sg_id = sg_id2[0], False, sg_id2[1][1]
+                        sg_id = sg_id2[0] == 2, False, sg_id2[1][1]
             
                 elif so3_sg_id[0] is True and so3_sg_id[1] == 1:
                     # flip subgroup of the O(2) subgroup, C_2 x C_2
-- 
2.43.0


From 2803d65d93f919da9b5ed100f99c94e2419d020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:40 +0000
Subject: [PATCH 22/73] fix: restricting a space whose symmetry is a rotation
 or conical subgroup of O(3)

---
 escnn/group/groups/o3group.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index 3da6d4e..61677d9 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -807,8 +807,10 @@ class O3(Group):
         elif sg_id1[0] == False:
         
             # the rest of the id identifies a subgroup of the SO3 subgroup
-            so3_sg_id = sg1._combine_subgroups(sg_id1[1:], sg_id2)
-            sg_id, adjoint2 = (False,) + so3_sg_id[:-1], so3_sg_id[-1]
+            so3 = escnn.group.so3_group(self._maximum_frequency)
+            so3_sg_id = so3._combine_subgroups(sg_id1[1:], sg_id2)
+            sg_id = (False,) + so3_sg_id[:-1]
+            adjoint1 = self.element((0, so3_sg_id[-1].to('Q')), 'Q') @ adjoint1
     
         elif sg_id1[0] == 'cone':
             assert len(sg_id1) == 2
@@ -822,14 +824,14 @@ class O3(Group):
                 # D_N pyramid symmetry
 
                 if sg_id2[0] is not None:
-                    sg_id = 'cone', sg_id2[1]
-                    adjoint2 = sg1.element((0, sg_id2[0]))
+                    axis = sg_id2[0] * 2 * np.pi / N if N > 1 else sg_id2[0]
+                    sg_id = 'cone', float(axis), sg_id2[1]
                 else:
-                    sg_id = False, None, sg_id2[1]
+                    sg_id = False, False, sg_id2[1]
             
             elif N == 1:
                 # C_2 mirroring wrt a plane
-                sg_id = sg_id1 if sg_id2 else self.subgroup_trivial_id
+                sg_id = sg_id1 if sg_id2 == 2 else (False, False, 1)
             else:
                 raise ValueError(f'Subgroup "{sg_id}" not recognized!')
     
-- 
2.43.0


From 5e5f9dd0151dfc5cf326638c0ea6db399e32b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:00 +0000
Subject: [PATCH 23/73] fix: equal gspaces and equal field types have equal
 hashes

---
 escnn/gspaces/r0.py    | 2 +-
 escnn/gspaces/r2.py    | 2 +-
 escnn/gspaces/r3.py    | 2 +-
 escnn/nn/field_type.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/escnn/gspaces/r0.py b/escnn/gspaces/r0.py
index 362accd..62503b5 100644
--- a/escnn/gspaces/r0.py
+++ b/escnn/gspaces/r0.py
@@ -87,7 +87,7 @@ class GSpace0D(GSpace):
             return False
 
     def __hash__(self):
-        return hash(self.fibergroup)
+        return hash(self.fibergroup.order())
 
 
 def no_base_space(G: Group) -> GSpace0D:
diff --git a/escnn/gspaces/r2.py b/escnn/gspaces/r2.py
index 195b220..3c8d878 100644
--- a/escnn/gspaces/r2.py
+++ b/escnn/gspaces/r2.py
@@ -149,7 +149,7 @@ class GSpace2D(gspaces.GSpace):
             return False
     
     def __hash__(self):
-        return 1000 * hash(self.name) + hash(self._sg_id)
+        return hash(self._sg_id)
     
     
 def rot2dOnR2(N: int = -1, maximum_frequency: int = 6) -> GSpace2D:
diff --git a/escnn/gspaces/r3.py b/escnn/gspaces/r3.py
index 2ed6d2c..b79a1ce 100644
--- a/escnn/gspaces/r3.py
+++ b/escnn/gspaces/r3.py
@@ -165,7 +165,7 @@ class GSpace3D(gspaces.GSpace):
             return False
     
     def __hash__(self):
-        return 1000 * hash(self.name) + hash(self._sg_id)
+        return hash(self._sg_id)
 
 
 ########################################################################################################################
diff --git a/escnn/nn/field_type.py b/escnn/nn/field_type.py
index 509ff62..30c1f42 100644
--- a/escnn/nn/field_type.py
+++ b/escnn/nn/field_type.py
@@ -96,7 +96,7 @@ class FieldType:
         self._field_start = None
         self._field_end = None
 
-        self._hash = hash(self.gspace.name + ': {' + ', '.join([r.name for r in self.representations]) + '}')
+        self._hash = hash((self.gspace, tuple(r.name for r in self.representations)))
 
         self._uniform = True
         rho = self.representations[0]
-- 
2.43.0


From 3aa27a0c79d8cca609b06559dcb74249df5d1d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:12 +0000
Subject: [PATCH 24/73] fix: GeometricTensor.split accepts the documented
 breaks and does not modify them

---
 escnn/nn/geometric_tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/geometric_tensor.py b/escnn/nn/geometric_tensor.py
index 8026225..947d75d 100644
--- a/escnn/nn/geometric_tensor.py
+++ b/escnn/nn/geometric_tensor.py
@@ -351,7 +351,11 @@ class GeometricTensor:
         """
         if breaks is None:
             breaks = list(range(len(self.type)))
-            
+        
+        # the first sub-tensor always begins at the first field
+        breaks = list(breaks)
+        if len(breaks) > 0 and breaks[0] == 0:
+            breaks = breaks[1:]
         breaks.append(len(self.type))
         
         # final list of tensors
-- 
2.43.0


From b377a8193144da26ea8e0bddee62ed7a1599328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:12 +0000
Subject: [PATCH 25/73] fix: restricting a field type keeps apart
 representations which share a name

---
 escnn/nn/field_type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/field_type.py b/escnn/nn/field_type.py
index 30c1f42..eba7b28 100644
--- a/escnn/nn/field_type.py
+++ b/escnn/nn/field_type.py
@@ -389,10 +389,10 @@ class FieldType:
         # restrict each different base representation in the fiber representation
         restricted_reprs = {}
         for r in self._unique_representations:
-            restricted_reprs[r.name] = self.gspace.fibergroup.restrict_representation(id, r)
+            restricted_reprs[r] = self.gspace.fibergroup.restrict_representation(id, r)
     
         # for each field, retrieve the corresponding restricted representation
-        fields = [restricted_reprs[r.name] for r in self.representations]
+        fields = [restricted_reprs[r] for r in self.representations]
     
         # build the restricted fiber representation
         rrepr = subspace.type(*fields)
-- 
2.43.0


From 06a358a0429f1ece37861e3ff390f73b1033bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:05 +0000
Subject: [PATCH 26/73] fix: do not confuse the kernel bases of different
 representations which share a name

---
 escnn/gspaces/gspace.py                | 12 ++++++------
 escnn/gspaces/r0.py                    |  6 +++---
 escnn/kernels/polar_basis_poulenard.py |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/escnn/gspaces/gspace.py b/escnn/gspaces/gspace.py
index ea36234..f566de9 100644
--- a/escnn/gspaces/gspace.py
+++ b/escnn/gspaces/gspace.py
@@ -356,15 +356,15 @@ class GSpace(ABC):
         assert in_repr.group == self.fibergroup
         assert out_repr.group == self.fibergroup
     
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory_fiber_basis:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory_fiber_basis:
         
             basis = escnn.kernels.kernels_on_point(in_repr, out_repr)
         
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory_fiber_basis[(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory_fiber_basis[(in_repr, out_repr)] = basis
     
         # return the dictionary with all the basis built
-        return self._fields_intertwiners_basis_memory_fiber_basis[(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory_fiber_basis[(in_repr, out_repr)]
 
     def build_kernel_basis(self,
                            in_repr: escnn.group.Representation,
@@ -446,16 +446,16 @@ class GSpace(ABC):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
     
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
         
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
         
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
     
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     @abstractmethod
     def _basis_generator(self,
diff --git a/escnn/gspaces/r0.py b/escnn/gspaces/r0.py
index 62503b5..1cdb799 100644
--- a/escnn/gspaces/r0.py
+++ b/escnn/gspaces/r0.py
@@ -64,15 +64,15 @@ class GSpace0D(GSpace):
         # build the key
         key = ()
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
     
             basis = self._basis_generator(in_repr, out_repr)
     
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with the basis built
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def _basis_generator(self,
                          in_repr: escnn.group.Representation,
diff --git a/escnn/kernels/polar_basis_poulenard.py b/escnn/kernels/polar_basis_poulenard.py
index e03d987..29e7e59 100644
--- a/escnn/kernels/polar_basis_poulenard.py
+++ b/escnn/kernels/polar_basis_poulenard.py
@@ -188,10 +188,10 @@ class NormalizedR3Conv(R3Conv):
         key["maximum_requency"] = maximum_frequency
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in _fields_intertwiners_basis_memory_normaliedSO3[key]:
+        if (in_repr, out_repr) not in _fields_intertwiners_basis_memory_normaliedSO3[key]:
             basis = normalized_kernels_SO3_act_R3(in_repr, out_repr, rings, maximum_frequency=maximum_frequency)
             # store the basis in the dictionary
-            _fields_intertwiners_basis_memory_normaliedSO3[key][(in_repr.name, out_repr.name)] = basis
+            _fields_intertwiners_basis_memory_normaliedSO3[key][(in_repr, out_repr)] = basis
         # return the dictionary with all the basis built for this filter size
-        return _fields_intertwiners_basis_memory_normaliedSO3[key][(in_repr.name, out_repr.name)]
+        return _fields_intertwiners_basis_memory_normaliedSO3[key][(in_repr, out_repr)]
 
-- 
2.43.0


From 53d59e2d8d30b34f820fb6cd30571822d5bf1b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:44 +0000
Subject: [PATCH 27/73] fix: point convolutions with groups and contiguous
 output fields

---
 escnn/nn/modules/basismanager/basissampler_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/basismanager/basissampler_blocks.py b/escnn/nn/modules/basismanager/basissampler_blocks.py
index 44ecdc6..37fd3a2 100644
--- a/escnn/nn/modules/basismanager/basissampler_blocks.py
+++ b/escnn/nn/modules/basismanager/basissampler_blocks.py
@@ -464,7 +464,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                 block_out = self._compute_out_block(weights, _input, points, io_pair)
 
                 if self._contiguous[io_pair]:
-                    _out[:, out_indices[0]:out_indices[1]] += block_out.reshape(S, groups*out_indices[2])
+                    _out[:, out_indices[0]:out_indices[1]] += block_out.reshape(S, out_indices[2])
                 else:
                     _out[:, out_indices] += block_out.reshape(S, -1)
 
-- 
2.43.0


From 2f52ed172e72206e37addb5442f45d0a020e4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:11 +0000
Subject: [PATCH 28/73] fix: point convolutions accept representations with a
 dot in their name, like the grid convolutions

---
 .../basismanager/basissampler_blocks.py       | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/escnn/nn/modules/basismanager/basissampler_blocks.py b/escnn/nn/modules/basismanager/basissampler_blocks.py
index 37fd3a2..54a9079 100644
--- a/escnn/nn/modules/basismanager/basissampler_blocks.py
+++ b/escnn/nn/modules/basismanager/basissampler_blocks.py
@@ -74,7 +74,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                     _block_sampler_modules[reprs_names] = block_sampler
 
                     # register the block sampler as a submodule
-                    self.add_module(f"block_sampler_{reprs_names}", block_sampler)
+                    self.add_module(f"block_sampler_{self._escape_pair(reprs_names)}", block_sampler)
 
                 except EmptyBasisException:
                     # print(f"Empty basis at {reprs_names}")
@@ -123,8 +123,8 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                     _out_indices[io_pair[1]].max() + 1 - _out_indices[io_pair[1]].min()
                 ]
 
-                setattr(self, 'in_indices_{}'.format(io_pair), in_indices)
-                setattr(self, 'out_indices_{}'.format(io_pair), out_indices)
+                setattr(self, 'in_indices_{}'.format(self._escape_pair(io_pair)), in_indices)
+                setattr(self, 'out_indices_{}'.format(self._escape_pair(io_pair)), out_indices)
 
             else:
                 out_indices, in_indices = _out_indices[io_pair[1]], _in_indices[io_pair[0]]
@@ -133,8 +133,8 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                 # out_indices = out_indices.reshape(-1)
 
                 # register the indices tensors and the bases tensors as parameters of this module
-                self.register_buffer('in_indices_{}'.format(io_pair), in_indices)
-                self.register_buffer('out_indices_{}'.format(io_pair), out_indices)
+                self.register_buffer('in_indices_{}'.format(self._escape_pair(io_pair)), in_indices)
+                self.register_buffer('out_indices_{}'.format(self._escape_pair(io_pair)), out_indices)
 
             # number of occurrences of the input/output pair `io_pair`
             n_pairs = self._in_count[io_pair[0]] * self._out_count[io_pair[1]]
@@ -150,6 +150,14 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
 
         self._dim = last_weight_position
 
+    def _escape_name(self, name: str):
+        return name.replace('.', '^')
+
+    def _escape_pair(self, pair):
+        assert isinstance(pair, tuple), pair
+        assert len(pair) == 2, len(pair)
+        return (self._escape_name(pair[0]), self._escape_name(pair[1]))
+
     def get_element_info(self, idx: int) -> Dict:
 
         assert 0 <= idx < self._dim, idx
@@ -163,7 +171,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                 break
         assert reprs_names is not None and relative_idx is not None
 
-        block_sampler = getattr(self, f"block_sampler_{reprs_names}")
+        block_sampler = getattr(self, f"block_sampler_{self._escape_pair(reprs_names)}")
         block_idx = relative_idx // block_sampler.dimension()
         relative_idx = relative_idx % block_sampler.dimension()
 
@@ -220,7 +228,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
         idx = 0
         for reprs_names in self._representations_pairs:
 
-            block_sampler = getattr(self, f"block_sampler_{reprs_names}")
+            block_sampler = getattr(self, f"block_sampler_{self._escape_pair(reprs_names)}")
 
             # since this method returns an iterable of attributes built on the fly, load all attributes first and then
             # iterate on this list
@@ -272,7 +280,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
         groups = input.shape[1]
 
         # retrieve the basis
-        block_sampler = getattr(self, f"block_sampler_{io_pair}")
+        block_sampler = getattr(self, f"block_sampler_{self._escape_pair(io_pair)}")
 
         # retrieve the linear coefficients for the basis sampler
         coefficients = weights[self._weights_ranges[io_pair][0]:self._weights_ranges[io_pair][1]]
@@ -302,7 +310,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
     def _contract_basis_block(self, weights: torch.Tensor, points: torch.Tensor, io_pair) -> torch.Tensor:
 
         # retrieve the basis
-        block_sampler = getattr(self, f"block_sampler_{io_pair}")
+        block_sampler = getattr(self, f"block_sampler_{self._escape_pair(io_pair)}")
 
         # retrieve the linear coefficients for the basis sampler
         coefficients = weights[self._weights_ranges[io_pair][0]:self._weights_ranges[io_pair][1]]
@@ -363,8 +371,8 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
             for io_pair in self._representations_pairs:
 
                 # retrieve the indices
-                in_indices = getattr(self, f"in_indices_{io_pair}")
-                out_indices = getattr(self, f"out_indices_{io_pair}")
+                in_indices = getattr(self, f"in_indices_{self._escape_pair(io_pair)}")
+                out_indices = getattr(self, f"out_indices_{self._escape_pair(io_pair)}")
 
                 # expand the current subset of basis vectors and set the result in the appropriate place in the filter
                 expanded = self._contract_basis_block(weights, points, io_pair)
@@ -450,8 +458,8 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
             for io_pair in self._representations_pairs:
 
                 # retrieve the indices
-                in_indices = getattr(self, f"in_indices_{io_pair}")
-                out_indices = getattr(self, f"out_indices_{io_pair}")
+                in_indices = getattr(self, f"in_indices_{self._escape_pair(io_pair)}")
+                out_indices = getattr(self, f"out_indices_{self._escape_pair(io_pair)}")
 
                 if self._contiguous[io_pair]:
                     _input = input[:, :, in_indices[0]:in_indices[1]]
@@ -532,7 +540,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
         _hash = 0
         for io in self._representations_pairs:
             n_pairs = self._in_count[io[0]] * self._out_count[io[1]]
-            _hash += hash(getattr(self, f"block_sampler_{io}")) * n_pairs
+            _hash += hash(getattr(self, f"block_sampler_{self._escape_pair(io)}")) * n_pairs
 
         return _hash
 
@@ -554,17 +562,17 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                 return False
 
             if self._contiguous[io]:
-                if getattr(self, f"in_indices_{io}") != getattr(other, f"in_indices_{io}"):
+                if getattr(self, f"in_indices_{self._escape_pair(io)}") != getattr(other, f"in_indices_{self._escape_pair(io)}"):
                     return False
-                if getattr(self, f"out_indices_{io}") != getattr(other, f"out_indices_{io}"):
+                if getattr(self, f"out_indices_{self._escape_pair(io)}") != getattr(other, f"out_indices_{self._escape_pair(io)}"):
                     return False
             else:
-                if torch.any(getattr(self, f"in_indices_{io}") != getattr(other, f"in_indices_{io}")):
+                if torch.any(getattr(self, f"in_indices_{self._escape_pair(io)}") != getattr(other, f"in_indices_{self._escape_pair(io)}")):
                     return False
-                if torch.any(getattr(self, f"out_indices_{io}") != getattr(other, f"out_indices_{io}")):
+                if torch.any(getattr(self, f"out_indices_{self._escape_pair(io)}") != getattr(other, f"out_indices_{self._escape_pair(io)}")):
                     return False
 
-            if getattr(self, f"block_sampler_{io}") != getattr(other, f"block_sampler_{io}"):
+            if getattr(self, f"block_sampler_{self._escape_pair(io)}") != getattr(other, f"block_sampler_{self._escape_pair(io)}"):
                 return False
 
         return True
-- 
2.43.0


From 05ac843029c22f6aeba7ae3b63bcb14b8e868ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:44 +0000
Subject: [PATCH 29/73] fix: gated, vector-field and concatenated
 nonlinearities keep the precision of their input

---
 escnn/nn/modules/nonlinearities/concatenated.py   | 2 +-
 escnn/nn/modules/nonlinearities/gated1.py         | 2 +-
 escnn/nn/modules/nonlinearities/gated2.py         | 2 +-
 escnn/nn/modules/nonlinearities/induced_gated1.py | 2 +-
 escnn/nn/modules/nonlinearities/vectorfield.py    | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/escnn/nn/modules/nonlinearities/concatenated.py b/escnn/nn/modules/nonlinearities/concatenated.py
index 10756a1..bd4463c 100644
--- a/escnn/nn/modules/nonlinearities/concatenated.py
+++ b/escnn/nn/modules/nonlinearities/concatenated.py
@@ -70,7 +70,7 @@ class ConcatenatedNonLinearity(EquivariantModule):
         spatial_shape = input.tensor.shape[2:]
         
         # build the output tensor
-        output = torch.empty(b, 2 * c, *spatial_shape, dtype=torch.float, device=input.tensor.device)
+        output = torch.empty(b, 2 * c, *spatial_shape, dtype=input.tensor.dtype, device=input.tensor.device)
         
         # each channels is transformed to 2 channels:
         # first, apply the non-linearity to its value
diff --git a/escnn/nn/modules/nonlinearities/gated1.py b/escnn/nn/modules/nonlinearities/gated1.py
index 12a0f9c..5143566 100644
--- a/escnn/nn/modules/nonlinearities/gated1.py
+++ b/escnn/nn/modules/nonlinearities/gated1.py
@@ -208,7 +208,7 @@ class GatedNonLinearity1(EquivariantModule):
         gates = torch.sigmoid(gates - self.bias.view(1, -1, *[1]*len(spatial_shape)))
 
         # build the output tensor
-        output = torch.empty(b, self.out_type.size, *spatial_shape, dtype=torch.float, device=self.bias.device)
+        output = torch.empty(b, self.out_type.size, *spatial_shape, dtype=gates.dtype, device=self.bias.device)
 
         if not self.drop_gates:
             # copy the gates in the output
diff --git a/escnn/nn/modules/nonlinearities/gated2.py b/escnn/nn/modules/nonlinearities/gated2.py
index e954ad6..0f93d20 100644
--- a/escnn/nn/modules/nonlinearities/gated2.py
+++ b/escnn/nn/modules/nonlinearities/gated2.py
@@ -170,7 +170,7 @@ class GatedNonLinearity2(EquivariantModule):
         )
 
         # build the output tensor
-        output = torch.empty(b, self.out_type.size, *spatial_dims, dtype=torch.float, device=self.bias.device)
+        output = torch.empty(b, self.out_type.size, *spatial_dims, dtype=gates.dtype, device=self.bias.device)
 
         next_gate = 0
         
diff --git a/escnn/nn/modules/nonlinearities/induced_gated1.py b/escnn/nn/modules/nonlinearities/induced_gated1.py
index d8bd722..6a3ae0e 100644
--- a/escnn/nn/modules/nonlinearities/induced_gated1.py
+++ b/escnn/nn/modules/nonlinearities/induced_gated1.py
@@ -224,7 +224,7 @@ class InducedGatedNonLinearity1(EquivariantModule):
         )
 
         # build the output tensor
-        output = torch.empty(b, self.out_type.size, *spatial_dims, dtype=torch.float, device=self.bias.device)
+        output = torch.empty(b, self.out_type.size, *spatial_dims, dtype=gates.dtype, device=self.bias.device)
 
         if not self.drop_gates:
             # copy the gates in the output
diff --git a/escnn/nn/modules/nonlinearities/vectorfield.py b/escnn/nn/modules/nonlinearities/vectorfield.py
index 82ce822..6db57cb 100644
--- a/escnn/nn/modules/nonlinearities/vectorfield.py
+++ b/escnn/nn/modules/nonlinearities/vectorfield.py
@@ -82,10 +82,10 @@ class VectorFieldNonLinearity(EquivariantModule):
         max_activations = torch.relu_(max_activations)
         
         # compute the angles from the index of the maximum activation in the field
-        max_angles = argmaxes.to(dtype=torch.float) * base_angle
+        max_angles = argmaxes.to(dtype=input.tensor.dtype) * base_angle
         
         # build the output tensor
-        output = torch.empty(b, self.out_type.size, *spatial_shape, dtype=torch.float, device=input.tensor.device)
+        output = torch.empty(b, self.out_type.size, *spatial_shape, dtype=input.tensor.dtype, device=input.tensor.device)
         
         # to build the output vectors, take the cosine and the sine of the argmax angle
         # and multiply the 2-dimensional vector by the activation value
-- 
2.43.0


From f7e42204d2a7667d40992836fe36b9eeb702d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 30/73] fix: InducedGatedNonLinearity1 with drop_gates=False

---
 escnn/nn/modules/nonlinearities/induced_gated1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/nonlinearities/induced_gated1.py b/escnn/nn/modules/nonlinearities/induced_gated1.py
index 6a3ae0e..3d4de4d 100644
--- a/escnn/nn/modules/nonlinearities/induced_gated1.py
+++ b/escnn/nn/modules/nonlinearities/induced_gated1.py
@@ -229,9 +229,9 @@ class InducedGatedNonLinearity1(EquivariantModule):
         if not self.drop_gates:
             # copy the gates in the output
             if self._contiguous[GATES_ID]:
-                output[:, self.gates_indices[0]:self.gates_indices[1], ...] = gates
+                output[:, self.gates_indices[0]:self.gates_indices[1], ...] = gates.flatten(1, 2)
             else:
-                output[:, self.gates_indices, ...] = gates
+                output[:, self.gates_indices, ...] = gates.flatten(1, 2)
         
         next_gate = 0
         
-- 
2.43.0


From d189ae90da3e4b4d784396c9140d1f976b731e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 31/73] fix: the vector-field nonlinearity needs a group with a
 2-dimensional rotation representation

---
 escnn/nn/modules/nonlinearities/vectorfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/nonlinearities/vectorfield.py b/escnn/nn/modules/nonlinearities/vectorfield.py
index 6db57cb..f5a91d4 100644
--- a/escnn/nn/modules/nonlinearities/vectorfield.py
+++ b/escnn/nn/modules/nonlinearities/vectorfield.py
@@ -34,7 +34,7 @@ class VectorFieldNonLinearity(EquivariantModule):
         assert isinstance(in_type.gspace, GSpace)
 
         assert isinstance(in_type.gspace.fibergroup, CyclicGroup)
-        assert in_type.gspace.fibergroup.order() > 1
+        assert in_type.gspace.fibergroup.order() > 2
         
         for r in in_type.representations:
             assert 'vectorfield' in r.supported_nonlinearities,\
-- 
2.43.0


From fc950678dccca3df0cbaad0db586f08536f70687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 32/73] fix: Linear refuses types with no equivariant map
 between them, like the other layers

---
 escnn/nn/modules/linear.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/escnn/nn/modules/linear.py b/escnn/nn/modules/linear.py
index 09a7983..48b33a3 100644
--- a/escnn/nn/modules/linear.py
+++ b/escnn/nn/modules/linear.py
@@ -171,6 +171,11 @@ class Linear(EquivariantModule):
         else:
             raise ValueError('Basis Expansion algorithm "%s" not recognized' % basisexpansion)
 
+        if self.basisexpansion.dimension() == 0:
+            raise ValueError('''
+                The basis for the steerable matrix is empty!
+            ''')
+
         self.weights = Parameter(torch.zeros(self.basisexpansion.dimension()), requires_grad=True)
 
         filter_size = (out_type.size, in_type.size)
-- 
2.43.0


From 66d2b8e4a80a499d0a6a070d65381fb38972d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:06 +0000
Subject: [PATCH 33/73] fix: TensorProductModule on inputs whose spatial axes
 make einsum return a permuted layout

---
 escnn/nn/modules/nonlinearities/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/nonlinearities/tensor.py b/escnn/nn/modules/nonlinearities/tensor.py
index 249d01c..ff4efe4 100644
--- a/escnn/nn/modules/nonlinearities/tensor.py
+++ b/escnn/nn/modules/nonlinearities/tensor.py
@@ -122,7 +122,7 @@ class TensorProductModule(EquivariantModule):
 
         # compute tensor product
         tensor_features = torch.einsum('bci...,bco...->bcio...', input, input)
-        tensor_features = tensor_features.view(input.shape[0], self._C, self.hidden_type.representations[0].size, *spatial_shape)
+        tensor_features = tensor_features.reshape(input.shape[0], self._C, self.hidden_type.representations[0].size, *spatial_shape)
 
         # perform projection
         if not self.training:
@@ -134,7 +134,7 @@ class TensorProductModule(EquivariantModule):
         _matrix = _matrix.view(self._C, self.out_type.representations[0].size, self.hidden_type.representations[0].size)
         output = torch.einsum('coi,bci...->bco...', _matrix, tensor_features)
 
-        output = output.view(input.shape[0], self.out_type.size, *spatial_shape)
+        output = output.reshape(input.shape[0], self.out_type.size, *spatial_shape)
 
         return self.out_type(output, coords)
 
-- 
2.43.0


From 0e57d719926fe87eb0359e4171e533a204e7579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:46 +0000
Subject: [PATCH 34/73] fix: invariant maps keep the precision of their input

---
 escnn/nn/modules/invariantmaps/gpool.py        | 2 +-
 escnn/nn/modules/invariantmaps/induced_norm.py | 2 +-
 escnn/nn/modules/invariantmaps/norm.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/escnn/nn/modules/invariantmaps/gpool.py b/escnn/nn/modules/invariantmaps/gpool.py
index ebb88a5..ef05152 100644
--- a/escnn/nn/modules/invariantmaps/gpool.py
+++ b/escnn/nn/modules/invariantmaps/gpool.py
@@ -99,7 +99,7 @@ class GroupPooling(EquivariantModule):
         b, c = input.shape[:2]
         spatial_shape = input.shape[2:]
 
-        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=torch.float)
+        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=input.dtype)
         
         for s, contiguous in self._contiguous.items():
             
diff --git a/escnn/nn/modules/invariantmaps/induced_norm.py b/escnn/nn/modules/invariantmaps/induced_norm.py
index f60510a..b34ba89 100644
--- a/escnn/nn/modules/invariantmaps/induced_norm.py
+++ b/escnn/nn/modules/invariantmaps/induced_norm.py
@@ -119,7 +119,7 @@ class InducedNormPool(EquivariantModule):
         b, c = input.shape[:2]
         spatial_shape = input.shape[2:]
 
-        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=torch.float)
+        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=input.dtype)
         
         for id, contiguous in self._contiguous.items():
             size, subfield_size = id
diff --git a/escnn/nn/modules/invariantmaps/norm.py b/escnn/nn/modules/invariantmaps/norm.py
index 756879a..8360c9b 100644
--- a/escnn/nn/modules/invariantmaps/norm.py
+++ b/escnn/nn/modules/invariantmaps/norm.py
@@ -86,7 +86,7 @@ class NormPool(EquivariantModule):
         b, c = input.shape[:2]
         spatial_shape = input.shape[2:]
 
-        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=torch.float)
+        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=input.dtype)
         
         for s, contiguous in self._contiguous.items():
             
-- 
2.43.0


From 920b19854181a1a82abe73fadf0d7de3dbc2f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:33 +0000
Subject: [PATCH 35/73] fix: pooling layers predict the output shape of
 ceil_mode as PyTorch computes it; NormMaxPool supports it and keeps the
 input's precision

---
 escnn/nn/modules/pooling/norm_max.py         | 11 ++++++-----
 escnn/nn/modules/pooling/pointwise_avg.py    | 14 +++++---------
 escnn/nn/modules/pooling/pointwise_avg_3d.py | 17 +++++------------
 escnn/nn/modules/pooling/pointwise_max.py    | 14 ++------------
 escnn/nn/modules/utils.py                    | 16 +++++++++++++++-
 5 files changed, 33 insertions(+), 39 deletions(-)

diff --git a/escnn/nn/modules/pooling/norm_max.py b/escnn/nn/modules/pooling/norm_max.py
index f47d8f7..91388e1 100644
--- a/escnn/nn/modules/pooling/norm_max.py
+++ b/escnn/nn/modules/pooling/norm_max.py
@@ -8,6 +8,7 @@ from escnn.nn import FieldType
 from escnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooled_size
 
 import torch
 import torch.nn.functional as F
@@ -150,7 +151,7 @@ class NormMaxPool(EquivariantModule):
         n = input.tensor ** 2
         
         # pre-allocate the output tensor
-        output = torch.empty(b, c, ho, wo, device=input.tensor.device)
+        output = torch.empty(b, c, ho, wo, device=input.tensor.device, dtype=input.tensor.dtype)
         
         # reshape the input to merge the spatial dimensions
         input = input.tensor.reshape(b, c, -1)
@@ -225,10 +226,10 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho, wo = [
+            pooled_size(s, self.kernel_size[i], self.stride[i], self.padding[i], self.dilation[i], self.ceil_mode)
+            for i, s in enumerate((hi, wi))
+        ]
 
         return b, self.out_type.size, ho, wo
         
diff --git a/escnn/nn/modules/pooling/pointwise_avg.py b/escnn/nn/modules/pooling/pointwise_avg.py
index 29c92c0..426ec45 100644
--- a/escnn/nn/modules/pooling/pointwise_avg.py
+++ b/escnn/nn/modules/pooling/pointwise_avg.py
@@ -5,6 +5,7 @@ from escnn.nn import FieldType
 from escnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooled_size
 
 import torch.nn.functional as F
 import torch
@@ -111,15 +112,10 @@ class PointwiseAvgPool2D(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
-        
-        if self.ceil_mode:
-            ho = math.ceil(ho)
-            wo = math.ceil(wo)
-        else:
-            ho = math.floor(ho)
-            wo = math.floor(wo)
+        ho, wo = [
+            pooled_size(s, self.kernel_size[i], self.stride[i], self.padding[i], ceil_mode=self.ceil_mode)
+            for i, s in enumerate((hi, wi))
+        ]
 
         return b, self.out_type.size, ho, wo
 
diff --git a/escnn/nn/modules/pooling/pointwise_avg_3d.py b/escnn/nn/modules/pooling/pointwise_avg_3d.py
index 045006f..b5a2bf6 100644
--- a/escnn/nn/modules/pooling/pointwise_avg_3d.py
+++ b/escnn/nn/modules/pooling/pointwise_avg_3d.py
@@ -5,6 +5,7 @@ from escnn.nn import FieldType
 from escnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooled_size
 
 import torch.nn.functional as F
 import torch
@@ -106,18 +107,10 @@ class PointwiseAvgPool3D(EquivariantModule):
         b, c, hi, wi, di = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
-        do = (di + 2 * self.padding[2] - (self.kernel_size[2] - 1) - 1) / self.stride[2] + 1
-
-        if self.ceil_mode:
-            ho = math.ceil(ho)
-            wo = math.ceil(wo)
-            do = math.ceil(do)
-        else:
-            ho = math.floor(ho)
-            wo = math.floor(wo)
-            do = math.floor(do)
+        ho, wo, do = [
+            pooled_size(s, self.kernel_size[i], self.stride[i], self.padding[i], ceil_mode=self.ceil_mode)
+            for i, s in enumerate((hi, wi, di))
+        ]
 
         return b, self.out_type.size, ho, wo, do
 
diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index 7fe1503..f7a1ce3 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -4,6 +4,7 @@ from escnn.nn import FieldType
 from escnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import pooled_size
 
 import torch.nn.functional as F
 import torch
@@ -138,21 +139,10 @@ class _PointwiseMaxPoolND(EquivariantModule):
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
         shape_o = tuple(
-            (shape_i[i] + 2 * self.padding[i] - self.dilation[i] * (self.kernel_size[i] - 1) - 1) / self.stride[i] + 1
+            pooled_size(shape_i[i], self.kernel_size[i], self.stride[i], self.padding[i], self.dilation[i], self.ceil_mode)
             for i in range(self.d)
         )
 
-        if self.ceil_mode:
-            shape_o = tuple(
-                math.ceil(shape_o[i])
-                for i in range(self.d)
-            )
-        else:
-            shape_o = tuple(
-                math.floor(shape_o[i])
-                for i in range(self.d)
-            )
-
         return (b, self.out_type.size, *shape_o)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
diff --git a/escnn/nn/modules/utils.py b/escnn/nn/modules/utils.py
index 03d7203..3758cc5 100644
--- a/escnn/nn/modules/utils.py
+++ b/escnn/nn/modules/utils.py
@@ -4,7 +4,21 @@ from typing import List, Dict, Tuple
 from collections import defaultdict
 
 
-__all__ = ["check_consecutive_numbers", "indexes_from_labels"]
+__all__ = ["check_consecutive_numbers", "indexes_from_labels", "pooled_size"]
+
+
+def pooled_size(size: int, kernel_size: int, stride: int, padding: int, dilation: int = 1, ceil_mode: bool = False) -> int:
+    # the size of the output of PyTorch's pooling functions along one dimension (see 'torch.nn.MaxPool2d')
+    span = size + 2 * padding - dilation * (kernel_size - 1) - 1
+
+    if not ceil_mode:
+        return span // stride + 1
+
+    out = -(-span // stride) + 1
+    # windows which would start in the right padded region are ignored
+    if (out - 1) * stride >= size + padding:
+        out -= 1
+    return out
 
 
 def check_consecutive_numbers(list: List[int]) -> bool:
-- 
2.43.0


From 6768567756047f72587ddf901a9dfa0652debd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:33 +0000
Subject: [PATCH 36/73] fix: antialiased max pooling does not apply its padding
 twice

---
 escnn/nn/modules/pooling/pointwise_max.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index f7a1ce3..4b86c48 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -235,7 +235,8 @@ class _PointwiseMaxPoolAntialiasedND(_PointwiseMaxPoolND):
         _filter = _filter.view(1, 1, *[filter_size]*self.d).repeat((in_type.size, 1, *[1]*self.d))
 
         self.register_buffer('filter', _filter)
-        self._pad = tuple(p + int((filter_size - 1) // 2) for p in self.padding)
+        # the input's padding is already applied by the max operation
+        self._pad = (int((filter_size - 1) // 2),) * self.d
 
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From fdc842d6b7bcb8ab05c2c063ce72b254fa71e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:54 +0000
Subject: [PATCH 37/73] fix: antialiased max pooling honours ceil_mode

---
 escnn/nn/modules/pooling/pointwise_max.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index 4b86c48..ddb94dc 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -259,6 +259,7 @@ class _PointwiseMaxPoolAntialiasedND(_PointwiseMaxPoolND):
                                   self.padding,
                                   self.dilation,
                                   self.ceil_mode)
+            output = self._extend(output, input.shape)
             output = F.conv2d(output, self.filter, stride=self.stride, padding=self._pad, groups=output.shape[1])
         elif self.d == 3:
             # evaluate the max operation densely (stride = 1)
@@ -268,6 +269,7 @@ class _PointwiseMaxPoolAntialiasedND(_PointwiseMaxPoolND):
                                   self.padding,
                                   self.dilation,
                                   self.ceil_mode)
+            output = self._extend(output, input.shape)
             output = F.conv3d(output, self.filter, stride=self.stride, padding=self._pad, groups=output.shape[1])
         else:
             raise NotImplementedError
@@ -275,6 +277,14 @@ class _PointwiseMaxPoolAntialiasedND(_PointwiseMaxPoolND):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type, coords=None)
 
+    def _extend(self, output: torch.Tensor, input_shape: Tuple) -> torch.Tensor:
+        # when `ceil_mode` is set, the last strided window might lie beyond the end of the dense map
+        shape_o = self.evaluate_output_shape(input_shape)[2:]
+        pad = []
+        for i in reversed(range(self.d)):
+            pad += [0, max(0, (shape_o[i] - 1) * self.stride[i] + 1 - output.shape[2 + i])]
+        return F.pad(output, pad)
+
     def export(self):
         raise NotImplementedError
 
-- 
2.43.0


From 43dd8e0836c649564aab3c77ed946e7eb12fcc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:54 +0000
Subject: [PATCH 38/73] fix: exported max pooling layers keep ceil_mode

---
 escnn/nn/modules/pooling/pointwise_max.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index ddb94dc..34295a4 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -159,9 +159,9 @@ class _PointwiseMaxPoolND(EquivariantModule):
         self.eval()
 
         if self.d == 2:
-            return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+            return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
         elif self.d == 3:
-            return torch.nn.MaxPool3d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+            return torch.nn.MaxPool3d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 0dadb80b901e903a2a9af111757526a485b65929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:10 +0000
Subject: [PATCH 39/73] fix: objects which refer to a group can be deep-copied

---
 escnn/group/group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index c5a69dc..4fd2313 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -14,6 +14,10 @@ __all__ = ["Group", "GroupElement"]
 
 class Group(ABC):
     
+    def __deepcopy__(self, memo):
+        # groups are immutable and shared (see the factory functions): the copy of an object refers to the same group
+        return self
+
     @property
     @abstractmethod
     def PARAM(self) -> str:
-- 
2.43.0


From 9ac309d0ed7626fc947348d141885e56fbebbc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:28 +0000
Subject: [PATCH 40/73] fix: InnerBatchNorm on spaces without spatial
 dimensions and on point clouds

---
 escnn/nn/modules/batchnormalization/inner.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/inner.py b/escnn/nn/modules/batchnormalization/inner.py
index 5cdf486..b3f2108 100644
--- a/escnn/nn/modules/batchnormalization/inner.py
+++ b/escnn/nn/modules/batchnormalization/inner.py
@@ -15,11 +15,12 @@ from ..utils import indexes_from_labels
 __all__ = ["InnerBatchNorm"]
 
 
-class BatchNorm4d(torch.nn.modules.batchnorm._BatchNorm):
+class BatchNormNd(torch.nn.modules.batchnorm._BatchNorm):
+    # the number of dimensions depends on the input (a point cloud or a grid)
     def _check_input_dim(self, input):
-        if input.dim() != 6:
+        if input.dim() < 3:
             raise ValueError(
-                "expected 6D input (got {}D input)".format(input.dim())
+                "expected at least 3D input (got {}D input)".format(input.dim())
             )
 
 
@@ -99,17 +100,8 @@ class InnerBatchNorm(EquivariantModule):
             # register the indices tensors as parameters of this module
             self.register_buffer('indices_{}'.format(s), _indices[s])
 
-        if self.in_type.gspace.dimensionality in [0, 1]:
-            bnorm_class = torch.nn.BatchNorm2d
-        elif self.in_type.gspace.dimensionality == 2:
-            bnorm_class = torch.nn.BatchNorm3d
-        elif self.in_type.gspace.dimensionality == 3:
-            bnorm_class = BatchNorm4d
-        else:
-            raise NotImplementedError
-
         for s in _indices.keys():
-            _batchnorm = bnorm_class(
+            _batchnorm = BatchNormNd(
                 self._nfields[s],
                 self.eps,
                 self.momentum,
-- 
2.43.0


From 245b4fcee48e99288bae8fd8b00fcd3048c9a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:28 +0000
Subject: [PATCH 41/73] fix: GNormBatchNorm on inputs with any number of
 spatial dimensions and any memory layout

---
 escnn/nn/modules/batchnormalization/gnorm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index a3c922c..7a435b2 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -243,7 +243,7 @@ class GNormBatchNorm(EquivariantModule):
             
             if hasattr(self, f"{self._escape_name(name)}_change_of_basis_inv"):
                 cob_inv = getattr(self, f"{self._escape_name(name)}_change_of_basis_inv")
-                slice = torch.einsum("ds,bcsxy->bcdxy", (cob_inv, slice))
+                slice = torch.einsum("ds,bcs...->bcd...", (cob_inv, slice))
 
             if not self.track_running_stats:
                 means, vars = self._compute_statistics(slice, name)
@@ -290,12 +290,12 @@ class GNormBatchNorm(EquivariantModule):
             
             if hasattr(self, f"{self._escape_name(name)}_change_of_basis"):
                 cob = getattr(self, f"{self._escape_name(name)}_change_of_basis")
-                normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
+                normalized = torch.einsum("ds,bcs...->bcd...", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, *shape)
+                output[:, indices, ...] = normalized.reshape(b, -1, *shape)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, *shape)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, *shape)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
@@ -335,10 +335,10 @@ class GNormBatchNorm(EquivariantModule):
         N = b * M
 
         # compute the mean of the trivial fields
-        trivial_means = t[:, :, trivial_idxs, ...].view(b, c, l, M).mean(dim=(0, 3), keepdim=False).detach()
+        trivial_means = t[:, :, trivial_idxs, ...].reshape(b, c, l, M).mean(dim=(0, 3), keepdim=False).detach()
         
         # compute the mean of squares of all channels
-        vars = (t ** 2).view(b, c, s, M).mean(dim=(0, 3), keepdim=False).detach()
+        vars = (t ** 2).reshape(b, c, s, M).mean(dim=(0, 3), keepdim=False).detach()
         
         # For the non-trivial fields the mean of the fields is 0, so we can compute the variance as the mean of the
         # norms squared.
-- 
2.43.0


From 74a63fbd9b03e60a5419bfd0db520776b836ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:28 +0000
Subject: [PATCH 42/73] fix: reset_parameters of the norm batch-normalizations
 without affine parameters

---
 escnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 escnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/induced_norm.py b/escnn/nn/modules/batchnormalization/induced_norm.py
index 81ec69f..bacc0e9 100644
--- a/escnn/nn/modules/batchnormalization/induced_norm.py
+++ b/escnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/escnn/nn/modules/batchnormalization/norm.py b/escnn/nn/modules/batchnormalization/norm.py
index 8847ca7..b261206 100644
--- a/escnn/nn/modules/batchnormalization/norm.py
+++ b/escnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.uniform_()
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From 18b35710bae12513f27dfeb207daf644856bc3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:45 +0000
Subject: [PATCH 43/73] fix: FieldDropout with p=1 and in-place on types with
 interleaved field sizes

---
 escnn/nn/modules/dropout/field.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/escnn/nn/modules/dropout/field.py b/escnn/nn/modules/dropout/field.py
index 2e6e240..1141d49 100644
--- a/escnn/nn/modules/dropout/field.py
+++ b/escnn/nn/modules/dropout/field.py
@@ -30,13 +30,17 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
             mask = torch.cuda.FloatTensor(*shape, device=device)
         
         mask = mask.uniform_() > p
-        mask = mask.to(torch.float)
+        mask = mask.to(input.dtype)
+        
+        # when all fields are dropped, there is nothing to rescale
+        if p < 1.:
+            mask /= 1. - p
         
         if inplace:
-            input *= mask / (1. - p)
+            input *= mask
             return input
         else:
-            return input * mask / (1. - p)
+            return input * mask
     else:
         return input
 
@@ -152,13 +156,16 @@ class FieldDropout(EquivariantModule):
                 out = dropout_field(input[:, indices[0]:indices[1], ...].view(shape), self.p, self.training, self.inplace)
                 if not self.inplace:
                     shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
-                    output[:, indices[0]:indices[1], ...] = out.view(shape)
+                    output[:, indices[0]:indices[1], ...] = out.reshape(shape)
             else:
                 # otherwise we have to use indexing
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
-                if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
-                    output[:, indices, ...] = out.view(shape)
+                # indexing returns a copy: the result has to be stored also when the operation is performed in-place
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                if self.inplace:
+                    input[:, indices, ...] = out.reshape(shape)
+                else:
+                    output[:, indices, ...] = out.reshape(shape)
             
         if self.inplace:
             output = input
-- 
2.43.0


From dd48e1605111d6757787eac95e1ad2f5c505b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 44/73] fix: FieldDropout with p=0 never drops a field (uniform
 samples can be 0)

---
 escnn/nn/modules/dropout/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/dropout/field.py b/escnn/nn/modules/dropout/field.py
index 1141d49..68a831e 100644
--- a/escnn/nn/modules/dropout/field.py
+++ b/escnn/nn/modules/dropout/field.py
@@ -29,7 +29,7 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
             device = input.device
             mask = torch.cuda.FloatTensor(*shape, device=device)
         
-        mask = mask.uniform_() > p
+        mask = mask.uniform_() >= p
         mask = mask.to(input.dtype)
         
         # when all fields are dropped, there is nothing to rescale
-- 
2.43.0


From 30e95c0d0a567f1d48b1d36df8aaa84f88cc7fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 45/73] fix: layers do not share the cached modules of their
 basis

Changing the dtype or loading the state of one layer changed others.
---
 .../nn/modules/basismanager/basisexpansion_singleblock.py | 7 ++++++-
 escnn/nn/modules/basismanager/basissampler_singleblock.py | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
index 679eed5..fda51f0 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
@@ -4,6 +4,8 @@ from .basismanager import BasisManager
 
 from typing import Callable, Dict, List, Iterable, Union
 
+import copy
+
 import torch
 import numpy as np
 
@@ -154,7 +156,10 @@ def block_basisexpansion(basis: KernelBasis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, mask)
 
-        return _stored_filters[key]
+        # the cached module is never handed out: each layer owns the copy it registers, which follows that layer's
+        # dtype, device and state
+        basis = _stored_filters[key].basis
+        return copy.deepcopy(_stored_filters[key], {id(basis): basis})
     
     else:
         return SingleBlockBasisExpansion(basis, points, mask)
diff --git a/escnn/nn/modules/basismanager/basissampler_singleblock.py b/escnn/nn/modules/basismanager/basissampler_singleblock.py
index f370dd1..13719bf 100644
--- a/escnn/nn/modules/basismanager/basissampler_singleblock.py
+++ b/escnn/nn/modules/basismanager/basissampler_singleblock.py
@@ -4,6 +4,8 @@ from .basismanager import BasisManager
 
 from typing import Callable, Dict, Iterable, Union, Tuple
 
+import copy
+
 import torch
 import numpy as np
 
@@ -141,9 +143,11 @@ def block_basissampler(basis: SteerableKernelBasis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisSampler(basis, mask)
 
-        return _stored_filters[key]
+        # the cached module is never handed out: each layer owns the copy it registers, which follows that layer's
+        # dtype, device and state
+        return copy.deepcopy(_stored_filters[key])
     
     else:
-        return SingleBlockBasisSampler(basis, mask)
+        return SingleBlockBasisSampler(copy.deepcopy(basis), mask)
 
 
-- 
2.43.0


From d74a2a474a0728a847b10e1bfa5c8985ac120a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:17 +0000
Subject: [PATCH 46/73] fix: load_state_dict of layers whose types interleave
 one-dimensional fields

---
 escnn/nn/modules/basismanager/basisexpansion_blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/basismanager/basisexpansion_blocks.py b/escnn/nn/modules/basismanager/basisexpansion_blocks.py
index 4327815..80260ca 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_blocks.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_blocks.py
@@ -126,8 +126,9 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
 
             else:
                 out_indices, in_indices = torch.meshgrid([_out_indices[io_pair[1]], _in_indices[io_pair[0]]], indexing='ij')
-                in_indices = in_indices.reshape(-1)
-                out_indices = out_indices.reshape(-1)
+                # `meshgrid` returns views with repeated elements, which can not be written when loading a state dictionary
+                in_indices = in_indices.reshape(-1).contiguous()
+                out_indices = out_indices.reshape(-1).contiguous()
                 
                 # register the indices tensors and the bases tensors as parameters of this module
                 self.register_buffer('in_indices_{}'.format(self._escape_pair(io_pair)), in_indices)
-- 
2.43.0


From f1dda9bd172f6b67d0bdc42a75cdc42c5da66844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:47 +0000
Subject: [PATCH 47/73] fix: exported convolutions keep the padding mode and
 the output padding

---
 escnn/nn/modules/conv/r2_transposed_convolution.py | 1 +
 escnn/nn/modules/conv/r2convolution.py             | 3 ++-
 escnn/nn/modules/conv/r3_transposed_convolution.py | 1 +
 escnn/nn/modules/conv/r3convolution.py             | 3 ++-
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/conv/r2_transposed_convolution.py b/escnn/nn/modules/conv/r2_transposed_convolution.py
index ed85aff..cd785df 100644
--- a/escnn/nn/modules/conv/r2_transposed_convolution.py
+++ b/escnn/nn/modules/conv/r2_transposed_convolution.py
@@ -270,6 +270,7 @@ class R2ConvTransposed(_RdConvTransposed):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
diff --git a/escnn/nn/modules/conv/r2convolution.py b/escnn/nn/modules/conv/r2convolution.py
index 3c0c3ef..402a109 100644
--- a/escnn/nn/modules/conv/r2convolution.py
+++ b/escnn/nn/modules/conv/r2convolution.py
@@ -367,7 +367,8 @@ class R2Conv(_RdConv):
                                stride=self.stride,
                                dilation=self.dilation,
                                groups=self.groups,
-                               bias=has_bias)
+                               bias=has_bias,
+                               padding_mode=self.padding_mode)
 
         # set the filter and the bias
         conv.weight.data = _filter.data
diff --git a/escnn/nn/modules/conv/r3_transposed_convolution.py b/escnn/nn/modules/conv/r3_transposed_convolution.py
index c048152..6ebb9e6 100644
--- a/escnn/nn/modules/conv/r3_transposed_convolution.py
+++ b/escnn/nn/modules/conv/r3_transposed_convolution.py
@@ -384,6 +384,7 @@ class R3ConvTransposed(_RdConvTransposed):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
diff --git a/escnn/nn/modules/conv/r3convolution.py b/escnn/nn/modules/conv/r3convolution.py
index 4ae314b..d7f6a2f 100644
--- a/escnn/nn/modules/conv/r3convolution.py
+++ b/escnn/nn/modules/conv/r3convolution.py
@@ -360,7 +360,8 @@ class R3Conv(_RdConv):
                                stride=self.stride,
                                dilation=self.dilation,
                                groups=self.groups,
-                               bias=has_bias)
+                               bias=has_bias,
+                               padding_mode=self.padding_mode)
     
         # set the filter and the bias
         conv.weight.data = _filter.data
-- 
2.43.0


From db7a60aeab581d5860b875693f69dcbf63788f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:47 +0000
Subject: [PATCH 48/73] fix: exported convolutions and linear layers own their
 weights, in the dtype of the original

---
 escnn/nn/modules/conv/r2_transposed_convolution.py | 4 ++--
 escnn/nn/modules/conv/r2convolution.py             | 4 ++--
 escnn/nn/modules/conv/r3_transposed_convolution.py | 4 ++--
 escnn/nn/modules/conv/r3convolution.py             | 4 ++--
 escnn/nn/modules/linear.py                         | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/escnn/nn/modules/conv/r2_transposed_convolution.py b/escnn/nn/modules/conv/r2_transposed_convolution.py
index cd785df..a8b63b1 100644
--- a/escnn/nn/modules/conv/r2_transposed_convolution.py
+++ b/escnn/nn/modules/conv/r2_transposed_convolution.py
@@ -277,9 +277,9 @@ class R2ConvTransposed(_RdConvTransposed):
                                        bias=has_bias)
         
         # set the filter and the bias
-        conv.weight.data[:] = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data[:] = _bias.data
+            conv.bias.data = _bias.data.clone()
     
         return conv
 
diff --git a/escnn/nn/modules/conv/r2convolution.py b/escnn/nn/modules/conv/r2convolution.py
index 402a109..3bd7e2c 100644
--- a/escnn/nn/modules/conv/r2convolution.py
+++ b/escnn/nn/modules/conv/r2convolution.py
@@ -371,9 +371,9 @@ class R2Conv(_RdConv):
                                padding_mode=self.padding_mode)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
 
         return conv
 
diff --git a/escnn/nn/modules/conv/r3_transposed_convolution.py b/escnn/nn/modules/conv/r3_transposed_convolution.py
index 6ebb9e6..674319d 100644
--- a/escnn/nn/modules/conv/r3_transposed_convolution.py
+++ b/escnn/nn/modules/conv/r3_transposed_convolution.py
@@ -391,9 +391,9 @@ class R3ConvTransposed(_RdConvTransposed):
                                        bias=has_bias)
         
         # set the filter and the bias
-        conv.weight.data[:] = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data[:] = _bias.data
+            conv.bias.data = _bias.data.clone()
     
         return conv
 
diff --git a/escnn/nn/modules/conv/r3convolution.py b/escnn/nn/modules/conv/r3convolution.py
index d7f6a2f..373fa3f 100644
--- a/escnn/nn/modules/conv/r3convolution.py
+++ b/escnn/nn/modules/conv/r3convolution.py
@@ -364,9 +364,9 @@ class R3Conv(_RdConv):
                                padding_mode=self.padding_mode)
     
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
     
         return conv
 
diff --git a/escnn/nn/modules/linear.py b/escnn/nn/modules/linear.py
index 48b33a3..fa29718 100644
--- a/escnn/nn/modules/linear.py
+++ b/escnn/nn/modules/linear.py
@@ -309,9 +309,9 @@ class Linear(EquivariantModule):
         linear = torch.nn.Linear(self.in_type.size, self.out_type.size, bias=has_bias)
 
         # set the weights and the bias
-        linear.weight.data = _matrix.data
+        linear.weight.data = _matrix.data.clone()
         if has_bias:
-            linear.bias.data = _bias.data
+            linear.bias.data = _bias.data.clone()
 
         return linear
 
-- 
2.43.0


From 513656d6ac6d70c48796330d8dba0a2fbcf6656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:31 +0000
Subject: [PATCH 49/73] fix: GNormBatchNorm exports a batch norm of its own
 dimensionality, and refuses fields mixed by a change of basis

---
 escnn/nn/modules/batchnormalization/gnorm.py | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index 7a435b2..deda544 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -427,7 +427,22 @@ class GNormBatchNorm(EquivariantModule):
 
         self.eval()
 
-        batchnorm = torch.nn.BatchNorm3d(
+        if any(hasattr(self, f"{self._escape_name(name)}_change_of_basis") for name, _ in self._sizes):
+            raise NotImplementedError(
+                '''Fields whose irreps are mixed by a change of basis are not normalized channel by channel and can not be
+                converted into conventional BatchNorm'''
+            )
+
+        if self.in_type.gspace.dimensionality in [0, 1]:
+            bnorm_class = torch.nn.BatchNorm1d
+        elif self.in_type.gspace.dimensionality == 2:
+            bnorm_class = torch.nn.BatchNorm2d
+        elif self.in_type.gspace.dimensionality == 3:
+            bnorm_class = torch.nn.BatchNorm3d
+        else:
+            raise NotImplementedError
+
+        batchnorm = bnorm_class(
             self.in_type.size,
             self.eps,
             self.momentum,
@@ -469,15 +484,6 @@ class GNormBatchNorm(EquivariantModule):
                     1, n, size
                 ), bias, name=name, out=None).view(-1)
 
-            if hasattr(self, f"{self._escape_name(name)}_change_of_basis"):
-                cob = getattr(self, f"{self._escape_name(name)}_change_of_basis")
-
-                batchnorm.running_var.data[start:end] = torch.einsum(
-                    "ds,cs->cd",
-                    cob,
-                    batchnorm.running_var.data[start:end].view(n, size)
-                ).view(-1)
-
         batchnorm.eval()
 
         return batchnorm
-- 
2.43.0


From f7286fcae6540679046438b8b741b917f85d5953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:31 +0000
Subject: [PATCH 50/73] fix: exported batch norms do not share the counter of
 batches with the original

---
 escnn/nn/modules/batchnormalization/gnorm.py | 2 +-
 escnn/nn/modules/batchnormalization/iid.py   | 2 +-
 escnn/nn/modules/batchnormalization/inner.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index deda544..6d62722 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -450,7 +450,7 @@ class GNormBatchNorm(EquivariantModule):
             track_running_stats=self.track_running_stats
         )
 
-        batchnorm.num_batches_tracked.data = self.num_batches_tracked.data
+        batchnorm.num_batches_tracked.data = self.num_batches_tracked.data.clone()
 
         for name, size in self._sizes:
             contiguous = self._contiguous[name]
diff --git a/escnn/nn/modules/batchnormalization/iid.py b/escnn/nn/modules/batchnormalization/iid.py
index 6fe7d45..c2f65d2 100644
--- a/escnn/nn/modules/batchnormalization/iid.py
+++ b/escnn/nn/modules/batchnormalization/iid.py
@@ -370,7 +370,7 @@ class _IIDBatchNorm(EquivariantModule, ABC):
             track_running_stats=self.track_running_stats
         )
 
-        batchnorm.num_batches_tracked.data = self.num_batches_tracked.data
+        batchnorm.num_batches_tracked.data = self.num_batches_tracked.data.clone()
 
         for name, size in self._sizes:
             indices = getattr(self, f'{self._escape_name(name)}_indices')
diff --git a/escnn/nn/modules/batchnormalization/inner.py b/escnn/nn/modules/batchnormalization/inner.py
index b3f2108..e1fc9a0 100644
--- a/escnn/nn/modules/batchnormalization/inner.py
+++ b/escnn/nn/modules/batchnormalization/inner.py
@@ -221,7 +221,7 @@ class InnerBatchNorm(EquivariantModule):
             
             batchnorm.running_var.data[start:end] = bn.running_var.data.view(n, 1).expand(n, s).reshape(-1)
             batchnorm.running_mean.data[start:end] = bn.running_mean.data.view(n, 1).expand(n, s).reshape(-1)
-            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data
+            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data.clone()
 
             if num_batches_tracked is None:
                 num_batches_tracked = bn.num_batches_tracked.data
-- 
2.43.0


From 773e94adbf4b8cced562f1a74226d9228a50702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:45 +0000
Subject: [PATCH 51/73] fix: output shapes of GatedNonLinearity2,
 BranchingModule and MultipleModule

---
 escnn/nn/modules/branching_module.py      |  6 ++----
 escnn/nn/modules/multiple_module.py       |  2 +-
 escnn/nn/modules/nonlinearities/gated2.py | 10 ++++------
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/escnn/nn/modules/branching_module.py b/escnn/nn/modules/branching_module.py
index fb59aed..43ff606 100644
--- a/escnn/nn/modules/branching_module.py
+++ b/escnn/nn/modules/branching_module.py
@@ -219,12 +219,10 @@ class BranchingModule(EquivariantModule):
         return output
 
     def evaluate_output_shape(self, input_shape: Tuple[int, ...]) -> Dict[Any, Tuple[int, ...]]:
-        assert len(input_shape) == 4
+        assert len(input_shape) >= 2
         assert input_shape[1] == self.in_type.size
     
-        b, c, hi, wi = input_shape
-    
-        return {l: (b, repr.size, hi, wi) for l, repr in self.out_type.items()}
+        return {l: (input_shape[0], repr.size, *input_shape[2:]) for l, repr in self.out_type.items()}
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/escnn/nn/modules/multiple_module.py b/escnn/nn/modules/multiple_module.py
index a132433..5d92ca6 100644
--- a/escnn/nn/modules/multiple_module.py
+++ b/escnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
diff --git a/escnn/nn/modules/nonlinearities/gated2.py b/escnn/nn/modules/nonlinearities/gated2.py
index 0f93d20..157fef2 100644
--- a/escnn/nn/modules/nonlinearities/gated2.py
+++ b/escnn/nn/modules/nonlinearities/gated2.py
@@ -206,22 +206,20 @@ class GatedNonLinearity2(EquivariantModule):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type, coords)
 
-    def evaluate_output_shape(self, *input_shapes: Tuple[int, int, int, int]) -> Tuple[int, int, int, int]:
+    def evaluate_output_shape(self, *input_shapes: Tuple[int, ...]) -> Tuple[int, ...]:
         assert len(input_shapes) == 2
         gates_shape, input_shape = input_shapes
         
-        assert len(gates_shape) == 4
+        assert len(gates_shape) >= 2
         assert gates_shape[1] == self.in_type[0].size
 
-        assert len(input_shape) == 4
+        assert len(input_shape) >= 2
         assert input_shape[1] == self.in_type[1].size
         
         assert gates_shape[0] == input_shape[0]
         assert gates_shape[2:] == input_shape[2:]
 
-        b, c, hi, wi = input_shape
-
-        return b, self.out_type.size, hi, wi
+        return (input_shape[0], self.out_type.size, *input_shape[2:])
         
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
-- 
2.43.0


From 1a75eb72737b71dc8e9616ab87cec50eda630677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:45 +0000
Subject: [PATCH 52/73] fix: output shape of the point convolutions

---
 escnn/nn/modules/pointconv/rd_point_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/pointconv/rd_point_convolution.py b/escnn/nn/modules/pointconv/rd_point_convolution.py
index 55de19c..8912c4a 100644
--- a/escnn/nn/modules/pointconv/rd_point_convolution.py
+++ b/escnn/nn/modules/pointconv/rd_point_convolution.py
@@ -376,10 +376,10 @@ class _RdPointConv(torch_geometric.nn.MessagePassing, EquivariantModule, ABC):
         return super(_RdPointConv, self).train(mode)
 
     def evaluate_output_shape(self, input_shape: Tuple) -> Tuple:
-        assert len(input_shape) == 3
+        assert len(input_shape) == 2
         assert input_shape[1] == self.in_type.size
 
-        return input_shape[0], self.out_type.size, input_shape[2]
+        return input_shape[0], self.out_type.size
 
     def __repr__(self):
         extra_lines = []
-- 
2.43.0


From 83af4c75844ef665e2c97af3a1d0e75a75b02c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:45 +0000
Subject: [PATCH 53/73] fix: output shape of convolutions with a padding per
 axis

---
 escnn/nn/modules/conv/rd_convolution.py            | 4 +++-
 escnn/nn/modules/conv/rd_transposed_convolution.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/conv/rd_convolution.py b/escnn/nn/modules/conv/rd_convolution.py
index eea1b4c..dabdb95 100644
--- a/escnn/nn/modules/conv/rd_convolution.py
+++ b/escnn/nn/modules/conv/rd_convolution.py
@@ -342,9 +342,11 @@ class _RdConv(EquivariantModule, ABC):
         b, c = input_shape[:2]
         w = input_shape[2:]
         
+        padding = self.padding if isinstance(self.padding, tuple) else (self.padding,)*self.d
+
         wo = [None]*self.d
         for i in range(self.d):
-            wo[i] = math.floor((w[i] + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+            wo[i] = math.floor((w[i] + 2 * padding[i] - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return (b, self.out_type.size) + tuple(wo)
 
diff --git a/escnn/nn/modules/conv/rd_transposed_convolution.py b/escnn/nn/modules/conv/rd_transposed_convolution.py
index f862340..214f863 100644
--- a/escnn/nn/modules/conv/rd_transposed_convolution.py
+++ b/escnn/nn/modules/conv/rd_transposed_convolution.py
@@ -324,9 +324,12 @@ class _RdConvTransposed(EquivariantModule, ABC):
         b, c = input_shape[:2]
         w = input_shape[2:]
         
+        padding = self.padding if isinstance(self.padding, tuple) else (self.padding,)*self.d
+        output_padding = self.output_padding if isinstance(self.output_padding, tuple) else (self.output_padding,)*self.d
+
         wo = [None]*self.d
         for i in range(self.d):
-            wo[i] = (w[i]-1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+            wo[i] = (w[i]-1) * self.stride - 2 * padding[i] + self.dilation * (self.kernel_size - 1) + output_padding[i] + 1
 
         return (b, self.out_type.size) + tuple(wo)
 
-- 
2.43.0


From a27d63cc1f00e35baad69e77b103e955ad4ae6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:10 +0000
Subject: [PATCH 54/73] fix: SequentialModule.append does not replace a module
 of a slice

---
 escnn/nn/modules/sequential_module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/sequential_module.py b/escnn/nn/modules/sequential_module.py
index f7e0d45..5faa84e 100644
--- a/escnn/nn/modules/sequential_module.py
+++ b/escnn/nn/modules/sequential_module.py
@@ -110,7 +110,11 @@ class SequentialModule(EquivariantModule):
     def append(self, module: EquivariantModule) -> 'SequentialModule':
         r"""Appends a new EquivariantModule at the end.
         """
-        self.add_module(str(len(self)), module)
+        # slices and modules built from an OrderedDict do not name their modules "0", "1", ...
+        idx = len(self)
+        while str(idx) in self._modules:
+            idx += 1
+        self.add_module(str(idx), module)
         return self
 
     def __getitem__(self, idx) -> Union['SequentialModule', EquivariantModule]:
-- 
2.43.0


From 684c514afa1a1afb298a8e74e2626e0b53fe799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:36 +0000
Subject: [PATCH 55/73] fix: MergeModule accepts a multi-input module first and
 does not modify the caller's list

---
 escnn/nn/modules/merge_module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/merge_module.py b/escnn/nn/modules/merge_module.py
index 1e5eb48..e492785 100644
--- a/escnn/nn/modules/merge_module.py
+++ b/escnn/nn/modules/merge_module.py
@@ -41,6 +41,9 @@ class MergeModule(EquivariantModule):
         
         labels = []
         
+        # do not modify the list of the caller
+        modules = list(modules)
+        
         for i in range(len(modules)):
             if isinstance(modules[i][1], str):
                 modules[i] = (modules[i][0], [modules[i][1]])
@@ -52,7 +55,8 @@ class MergeModule(EquivariantModule):
             labels += modules[i][1]
         
         self.in_type = None
-        self.gspace = modules[0][0].in_type.gspace
+        in_type = modules[0][0].in_type
+        self.gspace = in_type[0].gspace if isinstance(in_type, tuple) else in_type.gspace
         
         out_repr = []
         
-- 
2.43.0


From d06da1829282279c2da5eeaf1a8f462c6541d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:36 +0000
Subject: [PATCH 56/73] fix: MultipleModule accepts a list with a single label

---
 escnn/nn/modules/multiple_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/multiple_module.py b/escnn/nn/modules/multiple_module.py
index 5d92ca6..a94579b 100644
--- a/escnn/nn/modules/multiple_module.py
+++ b/escnn/nn/modules/multiple_module.py
@@ -92,8 +92,10 @@ class MultipleModule(EquivariantModule):
             if isinstance(l, str):
                 assert module.in_type == self.branching.out_type[l], f"Label {l}, branch class and module ({module}) class don't match:\n [{module.in_type}] \n [{self.branching.out_type[l]}]\n"
             else:
+                in_types = module.in_type if isinstance(module.in_type, tuple) else (module.in_type,)
+                assert len(in_types) == len(l)
                 for i, lb in enumerate(l):
-                    assert module.in_type[i] == self.branching.out_type[lb], f"Label {lb}, branch class and module ({module}) class [{i}] don't match: \n [{module.in_type[i]}] \n [{self.branching.out_type[lb]}]\n"
+                    assert in_types[i] == self.branching.out_type[lb], f"Label {lb}, branch class and module ({module}) class [{i}] don't match: \n [{in_types[i]}] \n [{self.branching.out_type[lb]}]\n"
         
         self.merging = MergeModule(modules)
         
-- 
2.43.0


From a617c94f004a987a5fc801f6f7f3b74fe4bb8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:36 +0000
Subject: [PATCH 57/73] fix: BranchingModule accepts the documented reshuffle
 level 3

---
 escnn/nn/modules/branching_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/branching_module.py b/escnn/nn/modules/branching_module.py
index 43ff606..252fa01 100644
--- a/escnn/nn/modules/branching_module.py
+++ b/escnn/nn/modules/branching_module.py
@@ -63,7 +63,7 @@ class BranchingModule(EquivariantModule):
         
         assert isinstance(in_type.gspace, GSpace)
         
-        assert 0 <= reshuffle < 3
+        assert 0 <= reshuffle <= 3
         
         super(BranchingModule, self).__init__()
         
-- 
2.43.0


From 7a1b90d3ee64578d1d4c9b9126948ec93a688856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:36 +0000
Subject: [PATCH 58/73] fix: MergeModule keeps the precision of the merged
 tensors

---
 escnn/nn/modules/merge_module.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/escnn/nn/modules/merge_module.py b/escnn/nn/modules/merge_module.py
index e492785..ae6a637 100644
--- a/escnn/nn/modules/merge_module.py
+++ b/escnn/nn/modules/merge_module.py
@@ -89,15 +89,7 @@ class MergeModule(EquivariantModule):
             
         """
         
-        # compute the output shape
-        out_shape = self.evaluate_output_shape(**{l: t.tensor.shape for l, t in input.items()})
-        
-        device = list(input.values())[0].tensor.device
-        
-        # pre-allocate the output tensor
-        output = torch.empty(out_shape, dtype=torch.float, device=device)
-        
-        last_channel = 0
+        outputs = []
         out_0 = None
         
         # iterate through the modules
@@ -110,8 +102,10 @@ class MergeModule(EquivariantModule):
             
             assert out_0.has_same_coords(out_i)
             
-            output[:, last_channel:last_channel + module.out_type.size, ...] = out_i.tensor
-            last_channel += module.out_type.size
+            outputs.append(out_i.tensor)
+        
+        # stack the outputs, keeping their precision
+        output = torch.cat(outputs, dim=1)
         
         return GeometricTensor(output, self.out_type, out_0.coords)
 
-- 
2.43.0


From 33921599d2cfb1055716db69dfb98e3049a3c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:57 +0000
Subject: [PATCH 59/73] fix: DisentangleModule accepts representations with a
 dot in their name

---
 escnn/nn/modules/disentangle_module.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/escnn/nn/modules/disentangle_module.py b/escnn/nn/modules/disentangle_module.py
index 7d56c17..1f322c3 100644
--- a/escnn/nn/modules/disentangle_module.py
+++ b/escnn/nn/modules/disentangle_module.py
@@ -52,7 +52,7 @@ class DisentangleModule(EquivariantModule):
             cob, reprs = disentangle(r)
             disentangled_representations[r.name] = reprs
             _change_of_basis_matrices[r.name] = torch.FloatTensor(cob)
-            self.register_buffer('change_of_basis_{}'.format(r.name), _change_of_basis_matrices[r.name])
+            self.register_buffer('change_of_basis_{}'.format(self._escape_name(r.name)), _change_of_basis_matrices[r.name])
 
         out_reprs = []
         self._nfields = defaultdict(int)
@@ -75,8 +75,11 @@ class DisentangleModule(EquivariantModule):
                 fiber_indices = (min(fiber_indices), max(fiber_indices)+1)
             
             fiber_indices = torch.LongTensor(fiber_indices)
-            self.register_buffer(f"fiber_indices_{repr_name}", fiber_indices)
+            self.register_buffer(f"fiber_indices_{self._escape_name(repr_name)}", fiber_indices)
         
+    def _escape_name(self, name: str):
+        return name.replace('.', '^')
+
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         assert input.type == self.in_type
         
@@ -92,10 +95,10 @@ class DisentangleModule(EquivariantModule):
         for repr_name in self._order:
             
             contiguous = self._contiguous[repr_name]
-            fiber_indices = getattr(self, f"fiber_indices_{repr_name}")
+            fiber_indices = getattr(self, f"fiber_indices_{self._escape_name(repr_name)}")
             
             # retrieve the associated change of basis
-            cob = getattr(self, f"change_of_basis_{repr_name}")
+            cob = getattr(self, f"change_of_basis_{self._escape_name(repr_name)}")
             
             # retrieve the associated fields from the input tensor
             if contiguous:
-- 
2.43.0


From 9d1804cd4be74dfb1c9e4fd966ff262f5e000237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:53 +0000
Subject: [PATCH 60/73] fix: numerical decompositions do not depend on the
 global random state

---
 escnn/group/_clebsh_gordan.py |  7 +++++--
 escnn/group/_numerical.py     | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/escnn/group/_clebsh_gordan.py b/escnn/group/_clebsh_gordan.py
index cc7505c..ff6045a 100644
--- a/escnn/group/_clebsh_gordan.py
+++ b/escnn/group/_clebsh_gordan.py
@@ -14,6 +14,7 @@ from joblib import Memory
 import escnn
 from escnn.group._numerical import find_intertwiner_basis_sylvester, build_sylvester_constraint
 from escnn.group._numerical import InsufficientIrrepsException
+from escnn.group._numerical import deterministic_samples
 
 from escnn.group import __cache_path__
 cache = Memory(__cache_path__, verbose=0)
@@ -90,7 +91,8 @@ def _clebsh_gordan_tensor(J: Tuple, l: Tuple, j: Tuple, group_class: str, **grou
         attepts = 5
         while True:
             try:
-                samples = generators + [G.sample() for _ in range(S - len(generators))]
+                with deterministic_samples(42 + attepts):
+                    samples = generators + [G.sample() for _ in range(S - len(generators))]
                 if len(samples) == 0:
                     basis = np.eye(D)
                 else:
@@ -107,7 +109,8 @@ def _clebsh_gordan_tensor(J: Tuple, l: Tuple, j: Tuple, group_class: str, **grou
                 break
                 
         # check that the solutions found are also in the kernel of the constraint matrix built with other random samples
-        D_Jl, D_j = build_matrices(generators + [G.sample() for _ in range(20)])
+        with deterministic_samples(1):
+            D_Jl, D_j = build_matrices(generators + [G.sample() for _ in range(20)])
         tensor = build_sylvester_constraint(D_Jl, D_j).todense().reshape(-1, D)
         
         if np.allclose(tensor @ basis, 0.):
diff --git a/escnn/group/_numerical.py b/escnn/group/_numerical.py
index aa7f9f0..b892003 100644
--- a/escnn/group/_numerical.py
+++ b/escnn/group/_numerical.py
@@ -10,6 +10,7 @@ from escnn.group import Group, GroupElement
 
 from typing import Callable, Any, List, Tuple, Dict, Union, Iterable
 
+from contextlib import contextmanager
 import math
 import numpy as np
 import scipy as sp
@@ -42,6 +43,20 @@ except ImportError:
 ########################################################################################################################
 
 
+@contextmanager
+def deterministic_samples(seed: int = 42):
+    """
+    Make the numerical methods which sample random group elements (or random initial solutions) deterministic.
+    The state of the global random number generator of numpy is restored afterwards.
+    """
+    state = np.random.get_state()
+    np.random.seed(seed)
+    try:
+        yield
+    finally:
+        np.random.set_state(state)
+
+
 def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
          use_sparse: bool,
          eps: float = 1e-12
@@ -129,6 +144,7 @@ def find_intertwiner_basis_sylvester(rho_1: List[np.ndarray], rho_2: List[np.nda
         return basis
 
 
+@deterministic_samples()
 def find_orthogonal_matrix(basis: np.ndarray, shape, verbose: bool = False) -> np.ndarray:
 
     # There is a bug in pygmanopt: a ZeroDivisionError is noted but not catched
@@ -612,6 +628,7 @@ def _compute_irrep_embeddings(
         return D.reshape((rho_dim, psi_dim, m))
 
 
+@deterministic_samples()
 def compute_irrep_embeddings_general(
         representation: Callable[[GroupElement], np.matrix],
         irrep: escnn.group.IrreducibleRepresentation,
@@ -716,6 +733,7 @@ def compute_irrep_embeddings_general(
     return end
 
 
+@deterministic_samples()
 def decompose_representation_general(
         representation: Callable[[GroupElement], np.matrix],
         group: escnn.group.Group,
-- 
2.43.0


From 25bfe337d0e8188ddd1161e9c8f2d3550294c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:19 +0000
Subject: [PATCH 61/73] fix: a custom name does not return a different induced
 or quotient representation

---
 escnn/group/group.py | 47 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index 4fd2313..4f93c6b 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -79,6 +79,9 @@ class Group(ABC):
         self._subgroups = {}
         
         self._homspaces = {}
+
+        # stores the induced and quotient representations already built, indexed by all the arguments they depend on
+        self._induced_representations = {}
         
     def order(self) -> int:
         r"""
@@ -517,7 +520,9 @@ class Group(ABC):
                 # the basis depends on the choice of coset representatives and on their order
                 name += f"[{', '.join(str(r) for r in representatives)}]"
         
-        if name not in self.representations:
+        key = (name, subgroup_id, None if representatives is None else tuple(representatives))
+
+        if key not in self._induced_representations:
             subgroup, _, _ = self.subgroup(subgroup_id)
             
             supported_nonlinearities = _induced_nonlinearities(subgroup.trivial_representation)
@@ -527,15 +532,16 @@ class Group(ABC):
                 subgroup.trivial_representation,
                 representatives
             )
-            self.representations[name] = escnn.group.Representation(self,
-                                                                    name,
-                                                                    [r.id for r in irreps],
-                                                                    change_of_basis,
-                                                                    supported_nonlinearities,
-                                                                    change_of_basis_inv=change_of_basis_inv,
-                                                                    )
+            self._induced_representations[key] = escnn.group.Representation(self,
+                                                                            name,
+                                                                            [r.id for r in irreps],
+                                                                            change_of_basis,
+                                                                            supported_nonlinearities,
+                                                                            change_of_basis_inv=change_of_basis_inv,
+                                                                            )
+            self.representations[name] = self._induced_representations[key]
 
-        return self.representations[name]
+        return self._induced_representations[key]
 
     def induced_representation(self,
                                subgroup_id,
@@ -569,7 +575,9 @@ class Group(ABC):
                 # the basis depends on the choice of coset representatives and on their order
                 name += f"[{', '.join(str(r) for r in representatives)}]"
 
-        if name not in self.representations:
+        key = (name, subgroup_id, repr.id, None if representatives is None else tuple(representatives))
+
+        if key not in self._induced_representations:
 
             supported_nonlinearities = _induced_nonlinearities(repr)
 
@@ -578,15 +586,16 @@ class Group(ABC):
                 repr,
                 representatives
             )
-            self.representations[name] = escnn.group.Representation(self,
-                                                                    name,
-                                                                    [r.id for r in irreps],
-                                                                    change_of_basis,
-                                                                    supported_nonlinearities,
-                                                                    change_of_basis_inv=change_of_basis_inv,
-                                                                    )
-
-        return self.representations[name]
+            self._induced_representations[key] = escnn.group.Representation(self,
+                                                                            name,
+                                                                            [r.id for r in irreps],
+                                                                            change_of_basis,
+                                                                            supported_nonlinearities,
+                                                                            change_of_basis_inv=change_of_basis_inv,
+                                                                            )
+            self.representations[name] = self._induced_representations[key]
+
+        return self._induced_representations[key]
 
     def _induced_from_irrep(self, subgroup_id: Tuple[float, int],
                             repr: escnn.group.IrreducibleRepresentation,
-- 
2.43.0


From e4b5791094f92053dfda5853016f6b1a28c120be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:13 +0000
Subject: [PATCH 62/73] fix: the library works when its package folder can not
 be written

---
 escnn/group/__init__.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/escnn/group/__init__.py b/escnn/group/__init__.py
index dc0a8e1..ac29b6b 100644
--- a/escnn/group/__init__.py
+++ b/escnn/group/__init__.py
@@ -1,6 +1,22 @@
 
 import os
-__cache_path__ = os.path.join(os.path.dirname(__file__), '_cache')
+import tempfile
+
+
+def _find_cache_path():
+    # The results of expensive computations are cached in the package's folder.
+    # If this folder can not be written (e.g. a system-wide installation), nothing is cached on disk.
+    path = os.path.join(os.path.dirname(__file__), '_cache')
+    try:
+        os.makedirs(path, exist_ok=True)
+        with tempfile.TemporaryFile(dir=path):
+            pass
+    except OSError:
+        return None
+    return path
+
+
+__cache_path__ = _find_cache_path()
 
 
 from .utils import psi, chi, psichi
-- 
2.43.0


From d6f307f01d0d69b5b328b2a4da8bec0311c4841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:58 +0000
Subject: [PATCH 63/73] Revert "fix: TensorProductModule on inputs whose
 spatial axes make einsum return a permuted layout"

This reverts commit 66d2b8e4a80a499d0a6a070d65381fb38972d955.
---
 escnn/nn/modules/nonlinearities/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/nonlinearities/tensor.py b/escnn/nn/modules/nonlinearities/tensor.py
index ff4efe4..249d01c 100644
--- a/escnn/nn/modules/nonlinearities/tensor.py
+++ b/escnn/nn/modules/nonlinearities/tensor.py
@@ -122,7 +122,7 @@ class TensorProductModule(EquivariantModule):
 
         # compute tensor product
         tensor_features = torch.einsum('bci...,bco...->bcio...', input, input)
-        tensor_features = tensor_features.reshape(input.shape[0], self._C, self.hidden_type.representations[0].size, *spatial_shape)
+        tensor_features = tensor_features.view(input.shape[0], self._C, self.hidden_type.representations[0].size, *spatial_shape)
 
         # perform projection
         if not self.training:
@@ -134,7 +134,7 @@ class TensorProductModule(EquivariantModule):
         _matrix = _matrix.view(self._C, self.out_type.representations[0].size, self.hidden_type.representations[0].size)
         output = torch.einsum('coi,bci...->bco...', _matrix, tensor_features)
 
-        output = output.reshape(input.shape[0], self.out_type.size, *spatial_shape)
+        output = output.view(input.shape[0], self.out_type.size, *spatial_shape)
 
         return self.out_type(output, coords)
 
-- 
2.43.0


From 80984ce2f05b67538fef4ceba3fb20b19bf88049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:58 +0000
Subject: [PATCH 64/73] fix: sample filter bases in double precision, so that
 basis elements vanishing on the grid are recognised

---
 .../nn/modules/basismanager/basisexpansion_singleblock.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
index fda51f0..b84895c 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
@@ -58,8 +58,10 @@ class SingleBlockBasisExpansion(torch.nn.Module, BasisManager):
         # sample the basis on the grid
         # basis has shape (p, k, o, i)
         # permute to (k, o, i, p)
-        sampled_basis = basis.sample(torch.tensor(
-            points, dtype=torch.float32
+        # the basis is sampled in double precision: the harmonics which vanish on the grid must not be mistaken for
+        # filters (and amplified by the normalization) because of the noise of single precision arithmetic
+        sampled_basis = copy.deepcopy(basis).double().sample(torch.tensor(
+            points, dtype=torch.float64
         )).permute(1, 2, 3, 0)
 
         # normalize the basis
@@ -71,7 +73,7 @@ class SingleBlockBasisExpansion(torch.nn.Module, BasisManager):
         mask = torch.tensor(mask) & norms
         if not mask.any():
             raise EmptyBasisException
-        sampled_basis = sampled_basis[mask, ...]
+        sampled_basis = sampled_basis[mask, ...].to(dtype=torch.float32)
         self._mask = mask
         
         # register the bases tensors as parameters of this module
-- 
2.43.0


From 30c992bdbf09c200a9d81645f80af711b32cb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:25 +0000
Subject: [PATCH 65/73] fix: convert every part of a filter basis to double
 precision when sampling it

---
 .../basismanager/basisexpansion_singleblock.py     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
index b84895c..f7b94df 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
@@ -12,6 +12,18 @@ import numpy as np
 __all__ = ["SingleBlockBasisExpansion", "block_basisexpansion"]
 
 
+def _to_double_precision(module: torch.nn.Module) -> torch.nn.Module:
+    # `module.double()` would convert only one among the submodules which compare equal
+    for tensors in (module._parameters, module._buffers):
+        for name, t in tensors.items():
+            if t is not None and t.is_floating_point():
+                tensors[name] = t.detach().double()
+    for child in module._modules.values():
+        if child is not None:
+            _to_double_precision(child)
+    return module
+
+
 class SingleBlockBasisExpansion(torch.nn.Module, BasisManager):
     
     def __init__(self,
@@ -60,7 +72,7 @@ class SingleBlockBasisExpansion(torch.nn.Module, BasisManager):
         # permute to (k, o, i, p)
         # the basis is sampled in double precision: the harmonics which vanish on the grid must not be mistaken for
         # filters (and amplified by the normalization) because of the noise of single precision arithmetic
-        sampled_basis = copy.deepcopy(basis).double().sample(torch.tensor(
+        sampled_basis = _to_double_precision(copy.deepcopy(basis)).sample(torch.tensor(
             points, dtype=torch.float64
         )).permute(1, 2, 3, 0)
 
-- 
2.43.0


From 88bd01955a66f26e7badaaa5d426b6c2438f9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:22 +0000
Subject: [PATCH 66/73] fix: O3 Clebsch-Gordan coefficients of irreps with
 mismatching parity raised a TypeError

---
 escnn/group/groups/o3group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index 61677d9..a88fe43 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -1207,7 +1207,7 @@ class O3(Group):
         if (m[0] + n[0])%2 == j[0]:
             return _clebsh_gordan_tensor_so3(m[1], n[1], j[1])
         else:
-            return np.zeros(self.irrep(*m).size, self.irrep(*n).size, 0, self.irrep(*j).size)
+            return np.zeros((self.irrep(*m).size, self.irrep(*n).size, 0, self.irrep(*j).size))
 
     _cached_group_instance = None
 
-- 
2.43.0


From 4c66392dfb0a7a5c59cf516d94a3e9e19ca31836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:22 +0000
Subject: [PATCH 67/73] fix: SO3 Clebsch-Gordan coefficients claimed
 multiplicity one for irreps not in the tensor product

---
 escnn/group/groups/so3group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/escnn/group/groups/so3group.py b/escnn/group/groups/so3group.py
index 032710c..daa4425 100644
--- a/escnn/group/groups/so3group.py
+++ b/escnn/group/groups/so3group.py
@@ -899,7 +899,10 @@ class SO3(Group):
 
 
 def _clebsh_gordan_tensor_so3(m: int, n: int, j: int):
-    if py3nj is None:
+    if not abs(m - n) <= j <= m + n:
+        # the irrep j does not appear in the tensor product
+        return np.zeros((2 * m + 1, 2 * n + 1, 0, 2 * j + 1))
+    elif py3nj is None:
         return escnn.group._clebsh_gordan._clebsh_gordan_tensor((m,), (n,), (j,), SO3.__name__)
     else:
         m1 = np.arange(-m, m + 1).reshape(-1, 1, 1)
-- 
2.43.0


From 2a14e1de52b01c70fd4b875ba5abd0885defb38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:38 +0000
Subject: [PATCH 68/73] fix: the order of the parameters of IID/GNorm batch
 norm and FieldNorm changed from one process to the next

---
 escnn/nn/field_type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/field_type.py b/escnn/nn/field_type.py
index eba7b28..5ea7af6 100644
--- a/escnn/nn/field_type.py
+++ b/escnn/nn/field_type.py
@@ -89,7 +89,8 @@ class FieldType:
         # representations' size
         self.size = sum([repr.size for repr in representations])
 
-        self._unique_representations = set(self.representations)
+        # the order must be reproducible, since modules build their parameters by iterating over this list
+        self._unique_representations = list(dict.fromkeys(self.representations))
         
         self._representation = None
         
-- 
2.43.0


From a5a31c2b508739e8b773dd1cff24bf58e2eb2e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:13 +0000
Subject: [PATCH 69/73] fix: convolutions and linear layers were not
 equivariant on types containing different representations with the same name

---
 escnn/nn/modules/basismanager/__init__.py     |  5 ++--
 .../basismanager/basisexpansion_blocks.py     | 22 ++++++++++------
 .../basismanager/basissampler_blocks.py       | 25 ++++++++++++-------
 escnn/nn/modules/utils.py                     | 20 +++++++++++++--
 4 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/escnn/nn/modules/basismanager/__init__.py b/escnn/nn/modules/basismanager/__init__.py
index ef72b1d..3815788 100644
--- a/escnn/nn/modules/basismanager/__init__.py
+++ b/escnn/nn/modules/basismanager/__init__.py
@@ -10,11 +10,12 @@ def retrieve_indices(reprs: List[Representation]):
     _indices = defaultdict(list)
     _count = defaultdict(int)
     _contiguous = {}
+    _labels = utils.unique_labels(reprs)
 
     for repr in reprs:
-        _indices[repr.name] += list(range(fiber_position, fiber_position + repr.size))
+        _indices[_labels[repr]] += list(range(fiber_position, fiber_position + repr.size))
         fiber_position += repr.size
-        _count[repr.name] += 1
+        _count[_labels[repr]] += 1
 
     for name, indices in _indices.items():
         # _contiguous[o_name] = indices == list(range(indices[0], indices[0]+len(indices)))
diff --git a/escnn/nn/modules/basismanager/basisexpansion_blocks.py b/escnn/nn/modules/basismanager/basisexpansion_blocks.py
index 80260ca..eb6e967 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_blocks.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_blocks.py
@@ -52,6 +52,12 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
         self._out_reprs = out_reprs
         self._input_size = sum(r.size for r in in_reprs)
         self._output_size = sum(r.size for r in out_reprs)
+
+        # different representations can share the same name
+        in_labels = utils.unique_labels(in_reprs)
+        out_labels = utils.unique_labels(out_reprs)
+        self._in_labels = [in_labels[r] for r in in_reprs]
+        self._out_labels = [out_labels[r] for r in out_reprs]
         self.points = points
         
         # int: number of points where the filters are sampled
@@ -64,7 +70,7 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
         # and, for each of them, build a basis
         for i_repr in set(in_reprs):
             for o_repr in set(out_reprs):
-                reprs_names = (i_repr.name, o_repr.name)
+                reprs_names = (in_labels[i_repr], out_labels[o_repr])
                 try:
                     
                     basis = basis_generator(i_repr, o_repr)
@@ -181,7 +187,7 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
             in_irreps_count = 0
             for i, i_repr in enumerate(self._in_reprs):
             
-                if reprs_names == (i_repr.name, o_repr.name):
+                if reprs_names == (self._in_labels[i], self._out_labels[o]):
                     
                     if block_count == block_idx:
 
@@ -190,8 +196,8 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
                         attr.update({
                             "in_irreps_position": in_irreps_count + attr["in_irrep_idx"],
                             "out_irreps_position": out_irreps_count + attr["out_irrep_idx"],
-                            "in_repr": reprs_names[0],
-                            "out_repr": reprs_names[1],
+                            "in_repr": self._in_reprs[i].name,
+                            "out_repr": self._out_reprs[o].name,
                             "in_field_position": i,
                             "out_field_position": o,
                         })
@@ -224,13 +230,13 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
         out_block_counts = defaultdict(list)
         for o, o_repr in enumerate(self._out_reprs):
             out_irreps_counts.append(out_irreps_counts[-1] + len(o_repr.irreps))
-            out_block_counts[o_repr.name].append(o)
+            out_block_counts[self._out_labels[o]].append(o)
             
         in_irreps_counts = [0]
         in_block_counts = defaultdict(list)
         for i, i_repr in enumerate(self._in_reprs):
             in_irreps_counts.append(in_irreps_counts[-1] + len(i_repr.irreps))
-            in_block_counts[i_repr.name].append(i)
+            in_block_counts[self._in_labels[i]].append(i)
 
         # iterate through the different group of blocks
         # i.e., through all input/output pairs
@@ -255,8 +261,8 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
                         attr.update({
                             "in_irreps_position": in_irreps_count + attr["in_irrep_idx"],
                             "out_irreps_position": out_irreps_count + attr["out_irrep_idx"],
-                            "in_repr": reprs_names[0],
-                            "out_repr": reprs_names[1],
+                            "in_repr": self._in_reprs[i].name,
+                            "out_repr": self._out_reprs[o].name,
                             "in_field_position": i,
                             "out_field_position": o,
                         })
diff --git a/escnn/nn/modules/basismanager/basissampler_blocks.py b/escnn/nn/modules/basismanager/basissampler_blocks.py
index 54a9079..37a89f2 100644
--- a/escnn/nn/modules/basismanager/basissampler_blocks.py
+++ b/escnn/nn/modules/basismanager/basissampler_blocks.py
@@ -1,6 +1,7 @@
 
 from escnn.group import Representation
 from escnn.kernels import KernelBasis, EmptyBasisException
+from escnn.nn.modules import utils
 
 
 from escnn.nn.modules.basismanager import retrieve_indices
@@ -49,8 +50,14 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
         self._input_size = sum(r.size for r in in_reprs)
         self._output_size = sum(r.size for r in out_reprs)
 
+        # different representations can share the same name
+        in_labels = utils.unique_labels(in_reprs)
+        out_labels = utils.unique_labels(out_reprs)
+        self._in_labels = [in_labels[r] for r in in_reprs]
+        self._out_labels = [out_labels[r] for r in out_reprs]
+
         self._in_sizes = {
-            r.name: r.size for r in in_reprs
+            in_labels[r]: r.size for r in in_reprs
         }
 
         uniform_input = all(r == in_reprs[0] for r in in_reprs)
@@ -64,7 +71,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
         # and, for each of them, build a basis
         for i_repr in set(in_reprs):
             for o_repr in set(out_reprs):
-                reprs_names = (i_repr.name, o_repr.name)
+                reprs_names = (in_labels[i_repr], out_labels[o_repr])
                 try:
 
                     basis = basis_generator(i_repr, o_repr)
@@ -183,7 +190,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
             in_irreps_count = 0
             for i, i_repr in enumerate(self._in_reprs):
 
-                if reprs_names == (i_repr.name, o_repr.name):
+                if reprs_names == (self._in_labels[i], self._out_labels[o]):
 
                     if block_count == block_idx:
                         # retrieve the attributes of each basis element and build a new list of
@@ -191,8 +198,8 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                         attr.update({
                             "in_irreps_position": in_irreps_count + attr["in_irrep_idx"],
                             "out_irreps_position": out_irreps_count + attr["out_irrep_idx"],
-                            "in_repr": reprs_names[0],
-                            "out_repr": reprs_names[1],
+                            "in_repr": self._in_reprs[i].name,
+                            "out_repr": self._out_reprs[o].name,
                             "in_field_position": i,
                             "out_field_position": o,
                         })
@@ -215,13 +222,13 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
         out_block_counts = defaultdict(list)
         for o, o_repr in enumerate(self._out_reprs):
             out_irreps_counts.append(out_irreps_counts[-1] + len(o_repr.irreps))
-            out_block_counts[o_repr.name].append(o)
+            out_block_counts[self._out_labels[o]].append(o)
 
         in_irreps_counts = [0]
         in_block_counts = defaultdict(list)
         for i, i_repr in enumerate(self._in_reprs):
             in_irreps_counts.append(in_irreps_counts[-1] + len(i_repr.irreps))
-            in_block_counts[i_repr.name].append(i)
+            in_block_counts[self._in_labels[i]].append(i)
 
         # iterate through the different group of blocks
         # i.e., through all input/output pairs
@@ -246,8 +253,8 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                         attr.update({
                             "in_irreps_position": in_irreps_count + attr["in_irrep_idx"],
                             "out_irreps_position": out_irreps_count + attr["out_irrep_idx"],
-                            "in_repr": reprs_names[0],
-                            "out_repr": reprs_names[1],
+                            "in_repr": self._in_reprs[i].name,
+                            "out_repr": self._out_reprs[o].name,
                             "in_field_position": i,
                             "out_field_position": o,
                         })
diff --git a/escnn/nn/modules/utils.py b/escnn/nn/modules/utils.py
index 3758cc5..a79808b 100644
--- a/escnn/nn/modules/utils.py
+++ b/escnn/nn/modules/utils.py
@@ -1,10 +1,11 @@
 
 from escnn.nn import FieldType
-from typing import List, Dict, Tuple
+from escnn.group import Representation
+from typing import List, Dict, Tuple, Iterable
 from collections import defaultdict
 
 
-__all__ = ["check_consecutive_numbers", "indexes_from_labels", "pooled_size"]
+__all__ = ["check_consecutive_numbers", "indexes_from_labels", "pooled_size", "unique_labels"]
 
 
 def pooled_size(size: int, kernel_size: int, stride: int, padding: int, dilation: int = 1, ceil_mode: bool = False) -> int:
@@ -21,6 +22,21 @@ def pooled_size(size: int, kernel_size: int, stride: int, padding: int, dilation
     return out
 
 
+def unique_labels(representations: Iterable[Representation]) -> Dict[Representation, str]:
+    # assign a different label to each different representation.
+    # This is its name, unless it is already used by another representation (e.g., the direct sums of the same
+    # representations in different bases have the same name).
+    labels = {}
+    for r in representations:
+        if r not in labels:
+            label, i = r.name, 1
+            while label in labels.values():
+                i += 1
+                label = f"{r.name}#{i}"
+            labels[r] = label
+    return labels
+
+
 def check_consecutive_numbers(list: List[int]) -> bool:
     
     m = M = list[0]
-- 
2.43.0


From b645239117d840486d25c5d816b739ef616ae010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:56 +0000
Subject: [PATCH 70/73] fix: IID/GNorm batch norm and FieldNorm confused
 different representations with the same name

---
 escnn/nn/modules/batchnormalization/gnorm.py | 28 +++++++++++---------
 escnn/nn/modules/batchnormalization/iid.py   | 28 +++++++++++---------
 escnn/nn/modules/normalization/fieldnorm.py  | 24 ++++++++++-------
 3 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index 6d62722..1d2a801 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -7,6 +7,7 @@ from escnn.nn import FieldType
 from escnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import unique_labels
 
 import torch
 from torch.nn import Parameter
@@ -89,6 +90,9 @@ class GNormBatchNorm(EquivariantModule):
         # whether each group of fields is contiguous or not
         self._contiguous = {}
         
+        # different representations can share the same name
+        labels = unique_labels(self.in_type.representations)
+
         ntrivials = 0
         position = 0
         last_field = None
@@ -98,15 +102,15 @@ class GNormBatchNorm(EquivariantModule):
                 if self.in_type.fibergroup._irreps[irr].is_trivial():
                     ntrivials += 1
             
-            if r.name != last_field:
-                if not r.name in self._contiguous:
-                    self._contiguous[r.name] = True
+            if labels[r] != last_field:
+                if not labels[r] in self._contiguous:
+                    self._contiguous[labels[r]] = True
                 else:
-                    self._contiguous[r.name] = False
+                    self._contiguous[labels[r]] = False
 
-            last_field = r.name
-            _indices[r.name] += list(range(position, position + r.size))
-            self._nfields[r.name] += 1
+            last_field = labels[r]
+            _indices[labels[r]] += list(range(position, position + r.size))
+            self._nfields[labels[r]] += 1
             position += r.size
         
         for name, contiguous in self._contiguous.items():
@@ -149,7 +153,7 @@ class GNormBatchNorm(EquivariantModule):
             
             propagator = (aggregator > 0).clone().to(dtype=torch.float)
             
-            name = r.name
+            name = labels[r]
             
             self._trivial_idxs[name] = torch.tensor(trivials, dtype=torch.long)
             self._irreps_sizes[name] = [(s, idxs) for s, idxs in irreps.items()]
@@ -162,14 +166,14 @@ class GNormBatchNorm(EquivariantModule):
             self.register_buffer(f'vars_aggregator_{self._escape_name(name)}', aggregator)
             self.register_buffer(f'vars_propagator_{self._escape_name(name)}', propagator)
         
-            running_var = torch.ones((self._nfields[r.name], len(r.irreps)), dtype=torch.float)
-            running_mean = torch.zeros((self._nfields[r.name], len(trivials)), dtype=torch.float)
+            running_var = torch.ones((self._nfields[labels[r]], len(r.irreps)), dtype=torch.float)
+            running_mean = torch.zeros((self._nfields[labels[r]], len(trivials)), dtype=torch.float)
             self.register_buffer(f'{self._escape_name(name)}_running_var', running_var)
             self.register_buffer(f'{self._escape_name(name)}_running_mean', running_mean)
             
             if self.affine:
-                weight = Parameter(torch.ones((self._nfields[r.name], len(r.irreps))), requires_grad=True)
-                bias = Parameter(torch.zeros((self._nfields[r.name], len(trivials))), requires_grad=True)
+                weight = Parameter(torch.ones((self._nfields[labels[r]], len(r.irreps))), requires_grad=True)
+                bias = Parameter(torch.zeros((self._nfields[labels[r]], len(trivials))), requires_grad=True)
                 self.register_parameter(f'{self._escape_name(name)}_weight', weight)
                 self.register_parameter(f'{self._escape_name(name)}_bias', bias)
             
diff --git a/escnn/nn/modules/batchnormalization/iid.py b/escnn/nn/modules/batchnormalization/iid.py
index c2f65d2..6ea14ab 100644
--- a/escnn/nn/modules/batchnormalization/iid.py
+++ b/escnn/nn/modules/batchnormalization/iid.py
@@ -7,6 +7,7 @@ from escnn.nn import FieldType
 from escnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import unique_labels
 
 import torch
 from torch.nn import Parameter
@@ -59,6 +60,9 @@ class _IIDBatchNorm(EquivariantModule, ABC):
         # whether each group of fields is contiguous or not
         self._contiguous = {}
         
+        # different representations can share the same name
+        labels = unique_labels(self.in_type.representations)
+
         ntrivials = 0
         position = 0
         last_field = None
@@ -68,15 +72,15 @@ class _IIDBatchNorm(EquivariantModule, ABC):
                 if self.in_type.fibergroup.irrep(*irr).is_trivial():
                     ntrivials += 1
             
-            if r.name != last_field:
-                if not r.name in self._contiguous:
-                    self._contiguous[r.name] = True
+            if labels[r] != last_field:
+                if not labels[r] in self._contiguous:
+                    self._contiguous[labels[r]] = True
                 else:
-                    self._contiguous[r.name] = False
+                    self._contiguous[labels[r]] = False
 
-            last_field = r.name
-            _indices[r.name] += list(range(position, position + r.size))
-            self._nfields[r.name] += 1
+            last_field = labels[r]
+            _indices[labels[r]] += list(range(position, position + r.size))
+            self._nfields[labels[r]] += 1
             position += r.size
         
         for name, contiguous in self._contiguous.items():
@@ -120,7 +124,7 @@ class _IIDBatchNorm(EquivariantModule, ABC):
                 
                 p += irr.size
             
-            name = r.name
+            name = labels[r]
             self._sizes.append((name, r.size))
             
             self._has_trivial[name] = len(trivials) > 0
@@ -134,20 +138,20 @@ class _IIDBatchNorm(EquivariantModule, ABC):
                 Q = torch.tensor(r.change_of_basis, dtype=torch.float)[:, trivials]
                 self.register_buffer(f'{self._escape_name(name)}_change_of_basis', Q)
                 
-                running_mean = torch.zeros((self._nfields[r.name], r.size), dtype=torch.float)
+                running_mean = torch.zeros((self._nfields[labels[r]], r.size), dtype=torch.float)
                 self.register_buffer(f'{self._escape_name(name)}_running_mean', running_mean)
 
             # assume all dimensions have same variance, i.e. the covariance matrix is a scalar multiple of the identity
-            running_var = torch.ones((self._nfields[r.name], 1), dtype=torch.float)
+            running_var = torch.ones((self._nfields[labels[r]], 1), dtype=torch.float)
             self.register_buffer(f'{self._escape_name(name)}_running_var', running_var)
             
             if self.affine:
                 # scale all dimensions of the same field by the same weight
-                weight = Parameter(torch.ones((self._nfields[r.name], 1)), requires_grad=True)
+                weight = Parameter(torch.ones((self._nfields[labels[r]], 1)), requires_grad=True)
                 self.register_parameter(f'{self._escape_name(name)}_weight', weight)
                 if self._has_trivial[name]:
                     # the bias is applied only to the trivial channels
-                    bias = Parameter(torch.zeros((self._nfields[r.name], len(trivials))), requires_grad=True)
+                    bias = Parameter(torch.zeros((self._nfields[labels[r]], len(trivials))), requires_grad=True)
                     self.register_parameter(f'{self._escape_name(name)}_bias', bias)
             
         self.register_buffer('num_batches_tracked', torch.tensor(0, dtype=torch.long))
diff --git a/escnn/nn/modules/normalization/fieldnorm.py b/escnn/nn/modules/normalization/fieldnorm.py
index d9422f7..a8555a1 100644
--- a/escnn/nn/modules/normalization/fieldnorm.py
+++ b/escnn/nn/modules/normalization/fieldnorm.py
@@ -5,6 +5,7 @@ from escnn.nn import FieldType
 from escnn.nn import GeometricTensor
 
 from ..equivariant_module import EquivariantModule
+from ..utils import unique_labels
 
 import torch
 from torch.nn import Parameter
@@ -74,6 +75,9 @@ class FieldNorm(EquivariantModule):
         # whether each group of fields is contiguous or not
         self._contiguous = {}
 
+        # different representations can share the same name
+        labels = unique_labels(self.in_type.representations)
+
         ntrivials = 0
         position = 0
         last_field = None
@@ -83,15 +87,15 @@ class FieldNorm(EquivariantModule):
                 if self.in_type.fibergroup.irrep(*irr).is_trivial():
                     ntrivials += 1
 
-            if r.name != last_field:
-                if not r.name in self._contiguous:
-                    self._contiguous[r.name] = True
+            if labels[r] != last_field:
+                if not labels[r] in self._contiguous:
+                    self._contiguous[labels[r]] = True
                 else:
-                    self._contiguous[r.name] = False
+                    self._contiguous[labels[r]] = False
 
-            last_field = r.name
-            _indices[r.name] += list(range(position, position + r.size))
-            self._nfields[r.name] += 1
+            last_field = labels[r]
+            _indices[labels[r]] += list(range(position, position + r.size))
+            self._nfields[labels[r]] += 1
             position += r.size
 
         for name, contiguous in self._contiguous.items():
@@ -135,7 +139,7 @@ class FieldNorm(EquivariantModule):
 
                 p += irr.size
 
-            name = r.name
+            name = labels[r]
             self._sizes.append((name, r.size))
 
             self._has_trivial[name] = len(trivials) > 0
@@ -151,11 +155,11 @@ class FieldNorm(EquivariantModule):
 
             if self.affine:
                 # scale all dimensions of the same field by the same weight
-                weight = Parameter(torch.ones((self._nfields[r.name], 1)), requires_grad=True)
+                weight = Parameter(torch.ones((self._nfields[labels[r]], 1)), requires_grad=True)
                 self.register_parameter(f'{self._escape_name(name)}_weight', weight)
                 if self._has_trivial[name]:
                     # the bias is applied only to the trivial channels
-                    bias = Parameter(torch.zeros((self._nfields[r.name], len(trivials))), requires_grad=True)
+                    bias = Parameter(torch.zeros((self._nfields[labels[r]], len(trivials))), requires_grad=True)
                     self.register_parameter(f'{self._escape_name(name)}_bias', bias)
 
         self.eps = eps
-- 
2.43.0


From 6547db24708e839743c4ab6e24c0131fd2ac6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:56 +0000
Subject: [PATCH 71/73] fix: DisentangleModule and InducedGatedNonLinearity1
 confused different representations with the same name

---
 escnn/nn/modules/disentangle_module.py        | 19 +++++++++++--------
 .../modules/nonlinearities/induced_gated1.py  |  4 ++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/escnn/nn/modules/disentangle_module.py b/escnn/nn/modules/disentangle_module.py
index 1f322c3..adce97a 100644
--- a/escnn/nn/modules/disentangle_module.py
+++ b/escnn/nn/modules/disentangle_module.py
@@ -6,7 +6,7 @@ import torch
 import numpy as np
 
 from .equivariant_module import EquivariantModule
-from .utils import indexes_from_labels
+from .utils import indexes_from_labels, unique_labels
 from escnn.gspaces import *
 from escnn.group import disentangle
 
@@ -46,23 +46,26 @@ class DisentangleModule(EquivariantModule):
         
         _change_of_basis_matrices = {}
         self._sizes = {}
+
+        # different representations can share the same name
+        labels = unique_labels(self.in_type.representations)
         
         for r in self.in_type._unique_representations:
-            self._sizes[r.name] = r.size
+            self._sizes[labels[r]] = r.size
             cob, reprs = disentangle(r)
-            disentangled_representations[r.name] = reprs
-            _change_of_basis_matrices[r.name] = torch.FloatTensor(cob)
-            self.register_buffer('change_of_basis_{}'.format(self._escape_name(r.name)), _change_of_basis_matrices[r.name])
+            disentangled_representations[labels[r]] = reprs
+            _change_of_basis_matrices[labels[r]] = torch.FloatTensor(cob)
+            self.register_buffer('change_of_basis_{}'.format(self._escape_name(labels[r])), _change_of_basis_matrices[labels[r]])
 
         out_reprs = []
         self._nfields = defaultdict(int)
         for r in self.in_type.representations:
-            self._nfields[r.name] += 1
-            out_reprs += disentangled_representations[r.name]
+            self._nfields[labels[r]] += 1
+            out_reprs += disentangled_representations[labels[r]]
 
         self.out_type = FieldType(self.in_type.gspace, out_reprs)
 
-        grouped_indices = indexes_from_labels(self.in_type, [r.name for r in self.in_type.representations])
+        grouped_indices = indexes_from_labels(self.in_type, [labels[r] for r in self.in_type.representations])
         
         self._order = []
         self._contiguous = {}
diff --git a/escnn/nn/modules/nonlinearities/induced_gated1.py b/escnn/nn/modules/nonlinearities/induced_gated1.py
index 3d4de4d..e65be87 100644
--- a/escnn/nn/modules/nonlinearities/induced_gated1.py
+++ b/escnn/nn/modules/nonlinearities/induced_gated1.py
@@ -112,7 +112,7 @@ class InducedGatedNonLinearity1(EquivariantModule):
                         subfield_size = int(nl.split('_')[-1])
                         assert r.size % subfield_size == 0
                         assert r.size // subfield_size == quotient_size
-                        subfield_sizes[r.name] = subfield_size
+                        subfield_sizes[r] = subfield_size
         
         self.quotient_size = quotient_size
         
@@ -133,7 +133,7 @@ class InducedGatedNonLinearity1(EquivariantModule):
             if g == GATES_ID:
                 type = g
             else:
-                type = r.size, subfield_sizes[r.name]
+                type = r.size, subfield_sizes[r]
                 self._nfields[type] += 1
 
             if type != last_type:
-- 
2.43.0


From 86093872498007c2ba92ee01a9a5ee161b92aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:09 +0000
Subject: [PATCH 72/73] fix: comparing filter bases with different numbers of
 rings or in different precision raised an error

---
 escnn/kernels/basis.py               | 2 +-
 escnn/kernels/polar_basis.py         | 7 ++++---
 escnn/kernels/sparse_basis.py        | 2 +-
 escnn/kernels/wignereckart_solver.py | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/escnn/kernels/basis.py b/escnn/kernels/basis.py
index 4403079..ccc3f3a 100644
--- a/escnn/kernels/basis.py
+++ b/escnn/kernels/basis.py
@@ -154,7 +154,7 @@ class AdjointBasis(KernelBasis):
     
     def __eq__(self, other):
         if isinstance(other, AdjointBasis):
-            return self.basis == other.basis and torch.allclose(self.adj, other.adj)
+            return self.basis == other.basis and torch.allclose(self.adj, other.adj.to(self.adj))
         # elif self.basis == other:
         #     return np.allclose(self.adj, np.eye(self.adj.shape[0))
         else:
diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index 2304e81..41ad69d 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -109,14 +109,15 @@ class GaussianRadialProfile(KernelBasis):
     def __eq__(self, other):
         if isinstance(other, GaussianRadialProfile):
             return (
-                        torch.allclose(self.radii, other.radii.to(self.radii.device))
-                    and torch.allclose(self.sigma, other.sigma.to(self.sigma.device))
+                        self.radii.shape == other.radii.shape
+                    and torch.allclose(self.radii, other.radii.to(self.radii))
+                    and torch.allclose(self.sigma, other.sigma.to(self.sigma))
             )
         else:
             return False
     
     def __hash__(self):
-        return hash(self.radii.cpu().numpy().tobytes()) + hash(self.sigma.cpu().numpy().tobytes())
+        return hash(self.radii.cpu().float().numpy().tobytes()) + hash(self.sigma.cpu().float().numpy().tobytes())
 
 
 def circular_harmonics(points: torch.Tensor, L: int, phase: float = 0.):
diff --git a/escnn/kernels/sparse_basis.py b/escnn/kernels/sparse_basis.py
index 642ccb9..3d1e801 100644
--- a/escnn/kernels/sparse_basis.py
+++ b/escnn/kernels/sparse_basis.py
@@ -261,7 +261,7 @@ class SparseOrbitBasis(SteerableFiltersBasis):
         elif (self.change_of_basis is None) != (other.change_of_basis is None):
             return False
         elif self.change_of_basis is not None:
-            return torch.allclose(self.change_of_basis, other.change_of_basis)
+            return torch.allclose(self.change_of_basis, other.change_of_basis.to(self.change_of_basis))
         else:
             return True
 
diff --git a/escnn/kernels/wignereckart_solver.py b/escnn/kernels/wignereckart_solver.py
index 2f9e877..9a95191 100644
--- a/escnn/kernels/wignereckart_solver.py
+++ b/escnn/kernels/wignereckart_solver.py
@@ -215,7 +215,7 @@ class WignerEckartBasis(IrrepBasis):
             return False
         else:
             for b, (j, i) in enumerate(zip(self.js, other.js)):
-                if j!=i or not torch.allclose(self.coeff(b), other.coeff(b)):
+                if j!=i or not torch.allclose(self.coeff(b), other.coeff(b).to(self.coeff(b))):
                     return False
             return True
 
@@ -512,7 +512,7 @@ class RestrictedWignerEckartBasis(IrrepBasis):
             return False
         else:
             for b, (j, i) in enumerate(zip(self.js, other.js)):
-                if j!=i or not torch.allclose(self.coeff(b), other.coeff(b)):
+                if j!=i or not torch.allclose(self.coeff(b), other.coeff(b).to(self.coeff(b))):
                     return False
             return True
 
-- 
2.43.0


From 2e23fdd0d95dbd60651f3350f6e23ff2ca05a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:21 +0000
Subject: [PATCH 73/73] fix: the order of the buffers of convolutions and
 linear layers changed from one process to the next

---
 escnn/nn/modules/basismanager/basisexpansion_blocks.py | 4 ++--
 escnn/nn/modules/basismanager/basissampler_blocks.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/escnn/nn/modules/basismanager/basisexpansion_blocks.py b/escnn/nn/modules/basismanager/basisexpansion_blocks.py
index eb6e967..839f6b9 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_blocks.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_blocks.py
@@ -68,8 +68,8 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
         
         # iterate through all different pairs of input/output representations
         # and, for each of them, build a basis
-        for i_repr in set(in_reprs):
-            for o_repr in set(out_reprs):
+        for i_repr in dict.fromkeys(in_reprs):
+            for o_repr in dict.fromkeys(out_reprs):
                 reprs_names = (in_labels[i_repr], out_labels[o_repr])
                 try:
                     
diff --git a/escnn/nn/modules/basismanager/basissampler_blocks.py b/escnn/nn/modules/basismanager/basissampler_blocks.py
index 37a89f2..755ccbb 100644
--- a/escnn/nn/modules/basismanager/basissampler_blocks.py
+++ b/escnn/nn/modules/basismanager/basissampler_blocks.py
@@ -69,8 +69,8 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
 
         # iterate through all different pairs of input/output representations
         # and, for each of them, build a basis
-        for i_repr in set(in_reprs):
-            for o_repr in set(out_reprs):
+        for i_repr in dict.fromkeys(in_reprs):
+            for o_repr in dict.fromkeys(out_reprs):
                 reprs_names = (in_labels[i_repr], out_labels[o_repr])
                 try:
 
-- 
2.43.0

