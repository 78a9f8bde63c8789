From e03050fcf3cb6d503e6846ede52e7f77be87731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 001/153] fix: orientation conversions accept the documented
 (..., n) batch shapes

TorchScript applies x[mask, k] with a multi-dimensional mask to the wrong
dimension, so every conversion using it raised for (H, W, n) inputs.
---
 ebsdtorch/s2_and_so3/orientations.py | 112 ++++++++++++++-------------
 1 file changed, 59 insertions(+), 53 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7061a6a..2467886 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -101,25 +101,25 @@ def om2qu(matrix: Tensor) -> Tensor:
 
     qu = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
 
-    qu[branch_1, 1] = branch_1_t * branch_1_t_rsqrt
-    qu[branch_1, 2] = (m01[branch_1] + m10[branch_1]) * branch_1_t_rsqrt
-    qu[branch_1, 3] = (m20[branch_1] + m02[branch_1]) * branch_1_t_rsqrt
-    qu[branch_1, 0] = (m12[branch_1] - m21[branch_1]) * branch_1_t_rsqrt
-
-    qu[branch_2, 1] = (m01[branch_2] + m10[branch_2]) * branch_2_t_rsqrt
-    qu[branch_2, 2] = branch_2_t * branch_2_t_rsqrt
-    qu[branch_2, 3] = (m12[branch_2] + m21[branch_2]) * branch_2_t_rsqrt
-    qu[branch_2, 0] = (m20[branch_2] - m02[branch_2]) * branch_2_t_rsqrt
-
-    qu[branch_3, 1] = (m20[branch_3] + m02[branch_3]) * branch_3_t_rsqrt
-    qu[branch_3, 2] = (m12[branch_3] + m21[branch_3]) * branch_3_t_rsqrt
-    qu[branch_3, 3] = branch_3_t * branch_3_t_rsqrt
-    qu[branch_3, 0] = (m01[branch_3] - m10[branch_3]) * branch_3_t_rsqrt
-
-    qu[branch_4, 1] = (m12[branch_4] - m21[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 2] = (m20[branch_4] - m02[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
+    qu[..., 1][branch_1] = branch_1_t * branch_1_t_rsqrt
+    qu[..., 2][branch_1] = (m01[branch_1] + m10[branch_1]) * branch_1_t_rsqrt
+    qu[..., 3][branch_1] = (m20[branch_1] + m02[branch_1]) * branch_1_t_rsqrt
+    qu[..., 0][branch_1] = (m12[branch_1] - m21[branch_1]) * branch_1_t_rsqrt
+
+    qu[..., 1][branch_2] = (m01[branch_2] + m10[branch_2]) * branch_2_t_rsqrt
+    qu[..., 2][branch_2] = branch_2_t * branch_2_t_rsqrt
+    qu[..., 3][branch_2] = (m12[branch_2] + m21[branch_2]) * branch_2_t_rsqrt
+    qu[..., 0][branch_2] = (m20[branch_2] - m02[branch_2]) * branch_2_t_rsqrt
+
+    qu[..., 1][branch_3] = (m20[branch_3] + m02[branch_3]) * branch_3_t_rsqrt
+    qu[..., 2][branch_3] = (m12[branch_3] + m21[branch_3]) * branch_3_t_rsqrt
+    qu[..., 3][branch_3] = branch_3_t * branch_3_t_rsqrt
+    qu[..., 0][branch_3] = (m01[branch_3] - m10[branch_3]) * branch_3_t_rsqrt
+
+    qu[..., 1][branch_4] = (m12[branch_4] - m21[branch_4]) * branch_4_t_rsqrt
+    qu[..., 2][branch_4] = (m20[branch_4] - m02[branch_4]) * branch_4_t_rsqrt
+    qu[..., 3][branch_4] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
+    qu[..., 0][branch_4] = branch_4_t * branch_4_t_rsqrt
 
     # guarantee the correct axis signs
     qu[..., 0] = torch.abs(qu[..., 0])
@@ -512,7 +512,7 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
     rot_is_identity = torch.abs(ho_norm_sq) < 1e-6
     # set the identity rotation
     ax[rot_is_identity] = 0
-    ax[rot_is_identity, ..., 2] = 1.0
+    ax[..., 2][rot_is_identity] = 1.0
     return ax
 
 
@@ -604,11 +604,11 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
 
     rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < 1e-8
-    ax[rot_is_identity, 0:1] = 0.0
-    ax[rot_is_identity, 1:2] = 0.0
-    ax[rot_is_identity, 2:3] = 1.0
+    ax[..., 0:1][rot_is_identity] = 0.0
+    ax[..., 1:2][rot_is_identity] = 0.0
+    ax[..., 2:3][rot_is_identity] = 1.0
 
-    ax[~rot_is_identity, :3] = ho[~rot_is_identity, :] * torch.rsqrt(
+    ax[..., :3][~rot_is_identity] = ho[~rot_is_identity] * torch.rsqrt(
         ho_norm_sq[~rot_is_identity]
     )
     ax[..., 3] = torch.where(
@@ -641,10 +641,10 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
     # where zero return zero
     mask_zero = h == 0
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
-    ax[mask_zero, 0] = 0.0
-    ax[mask_zero, 1] = 0.0
-    ax[mask_zero, 2] = 1.0
-    ax[mask_zero, 3] = 0.0
+    ax[..., 0][mask_zero] = 0.0
+    ax[..., 1][mask_zero] = 0.0
+    ax[..., 2][mask_zero] = 1.0
+    ax[..., 3][mask_zero] = 0.0
 
     # Newton's method
     # initial guess for w given h is an inverted Pade approximation
@@ -661,8 +661,8 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
-    ax[~mask_zero, 3] = w_newton
+    ax[..., 0:3][~mask_zero] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
+    ax[..., 3][~mask_zero] = w_newton
 
     return ax
 
@@ -716,14 +716,14 @@ def ro2ax(ro: Tensor) -> Tensor:
     ax[mask_zero_ro] = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
 
     mask_inf_ro = torch.isinf(ro[..., 3])
-    ax[mask_inf_ro, :3] = ro[mask_inf_ro, :3]
-    ax[mask_inf_ro, 3] = torch.pi
+    ax[..., :3][mask_inf_ro] = ro[..., :3][mask_inf_ro]
+    ax[..., 3][mask_inf_ro] = torch.pi
 
     mask_else = ~(mask_zero_ro | mask_inf_ro)
-    ax[mask_else, :3] = ro[mask_else, :3] / torch.norm(
-        ro[mask_else, :3], dim=-1, keepdim=True
+    ax[..., :3][mask_else] = ro[..., :3][mask_else] / torch.norm(
+        ro[..., :3][mask_else], dim=-1, keepdim=True
     )
-    ax[mask_else, 3] = 2 * torch.atan(ro[mask_else, 3])
+    ax[..., 3][mask_else] = 2 * torch.atan(ro[..., 3][mask_else])
     return ax
 
 
@@ -772,10 +772,10 @@ def qu2ax(qu: Tensor) -> Tensor:
 
     # fix identity quaternions to be about z axis
     mask_identity = angle == 0.0
-    ax[mask_identity, 0] = 0.0
-    ax[mask_identity, 1] = 0.0
-    ax[mask_identity, 2] = 1.0
-    ax[mask_identity, 3] = 0.0
+    ax[..., 0][mask_identity] = 0.0
+    ax[..., 1][mask_identity] = 0.0
+    ax[..., 2][mask_identity] = 1.0
+    ax[..., 3][mask_identity] = 0.0
 
     return ax
 
@@ -802,7 +802,7 @@ def qu2ro(qu: Tensor) -> Tensor:
     # w < 1e-8 for float32 / w < 1e-10 for float64 -> infinite tan
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
-    ro[mask_zero, 3] = float("inf")
+    ro[..., 3][mask_zero] = float("inf")
     return ro
 
 
@@ -829,22 +829,28 @@ def qu2bu(qu: Tensor) -> Tensor:
     mB = (mask_chi_zero) & (q03 == 0)
     mC = ~mask_chi_zero
 
-    bu[mA, 0] = torch.atan2(-2 * qu[mA, 0] * qu[mA, 3], qu[mA, 0] ** 2 - qu[mA, 3] ** 2)
-    bu[mA, 1] = 0
-    bu[mA, 2] = 0
+    bu[..., 0][mA] = torch.atan2(
+        -2 * qu[..., 0][mA] * qu[..., 3][mA],
+        qu[..., 0][mA] ** 2 - qu[..., 3][mA] ** 2,
+    )
+    bu[..., 1][mA] = 0
+    bu[..., 2][mA] = 0
 
-    bu[mB, 0] = torch.atan2(2 * qu[mB, 1] * qu[mB, 2], qu[mB, 1] ** 2 - qu[mB, 2] ** 2)
-    bu[mB, 1] = torch.pi
-    bu[mB, 2] = 0
+    bu[..., 0][mB] = torch.atan2(
+        2 * qu[..., 1][mB] * qu[..., 2][mB],
+        qu[..., 1][mB] ** 2 - qu[..., 2][mB] ** 2,
+    )
+    bu[..., 1][mB] = torch.pi
+    bu[..., 2][mB] = 0
 
-    bu[mC, 0] = torch.atan2(
-        (qu[mC, 1] * qu[mC, 3] - qu[mC, 0] * qu[mC, 2]) / chi[mC],
-        (-qu[mC, 0] * qu[mC, 1] - qu[mC, 2] * qu[mC, 3]) / chi[mC],
+    bu[..., 0][mC] = torch.atan2(
+        (qu[..., 1][mC] * qu[..., 3][mC] - qu[..., 0][mC] * qu[..., 2][mC]) / chi[mC],
+        (-qu[..., 0][mC] * qu[..., 1][mC] - qu[..., 2][mC] * qu[..., 3][mC]) / chi[mC],
     )
-    bu[mC, 1] = torch.atan2(2 * chi[mC], q03[mC] - q12[mC])
-    bu[mC, 2] = torch.atan2(
-        (qu[mC, 0] * qu[mC, 2] + qu[mC, 1] * qu[mC, 3]) / chi[mC],
-        (qu[mC, 2] * qu[mC, 3] - qu[mC, 0] * qu[mC, 1]) / chi[mC],
+    bu[..., 1][mC] = torch.atan2(2 * chi[mC], q03[mC] - q12[mC])
+    bu[..., 2][mC] = torch.atan2(
+        (qu[..., 0][mC] * qu[..., 2][mC] + qu[..., 1][mC] * qu[..., 3][mC]) / chi[mC],
+        (qu[..., 2][mC] * qu[..., 3][mC] - qu[..., 0][mC] * qu[..., 1][mC]) / chi[mC],
     )
 
     # add 2pi to negative angles for first and last angles
-- 
2.43.0


From 77130475135412f5b4520962af0afdc9cedd56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 002/153] fix: ax2om handles a single rotation and
 multi-dimensional batches

---
 ebsdtorch/s2_and_so3/orientations.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 2467886..b2f3a3b 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -192,10 +192,8 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     batch_dim = axis_angle.shape[:-1]
     data_n = int(torch.prod(torch.tensor(batch_dim)))
 
-    # set the output
-    matrices = torch.empty(
-        batch_dim + (3, 3), dtype=axis_angle.dtype, device=axis_angle.device
-    )
+    # flatten the batch dimensions
+    axis_angle = axis_angle.reshape(data_n, 4)
 
     theta = axis_angle[..., 3:4]
     omega = axis_angle[..., :3] * theta
@@ -211,7 +209,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze()
+    stable = (theta > 0.05).squeeze(-1)
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
-- 
2.43.0


From 3c7887d6fb212283ba66744075a60fcadea3f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 003/153] fix: qu2ho no longer clamps its input in place and
 accepts either quaternion sign

---
 ebsdtorch/s2_and_so3/orientations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index b2f3a3b..12f7fe4 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -39,9 +39,10 @@ def qu2ho(qu: Tensor) -> Tensor:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
     ho = torch.empty_like(qu[..., :3])
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp_(min=-1.0, max=1.0))
-    # get the unit vector
+    angle = 2 * torch.acos(torch.abs(qu[..., 0:1]).clamp(max=1.0))
+    # get the unit vector (q and -q are the same rotation)
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    unit = torch.where(qu[..., 0:1] < 0, -unit, unit)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
     # fix the case where the angle is zero
     ho[(angle.squeeze(-1) < 1e-8)] = 0.0
-- 
2.43.0


From 24e2e1c665facb3320d512a0cde63218963967f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 004/153] fix: qu2ax returns the right angle for quaternions
 with negative real part

---
 ebsdtorch/s2_and_so3/orientations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 12f7fe4..cd7769c 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -758,7 +758,8 @@ def qu2ax(qu: Tensor) -> Tensor:
     """
 
     ax = torch.empty_like(qu)
-    angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
+    # the axis is flipped below where the real part is negative
+    angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), max=1.0))
 
     s = torch.where(
         qu[..., 0:1] != 0,
-- 
2.43.0


From 8e64949cc2d78db9a7b8b839b3dbcf76930db8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 005/153] fix: om2qu returns the right axis for half turns

---
 ebsdtorch/s2_and_so3/orientations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index cd7769c..7222060 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -122,13 +122,11 @@ def om2qu(matrix: Tensor) -> Tensor:
     qu[..., 3][branch_4] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
     qu[..., 0][branch_4] = branch_4_t * branch_4_t_rsqrt
 
-    # guarantee the correct axis signs
-    qu[..., 0] = torch.abs(qu[..., 0])
-    qu[..., 1] = qu[..., 1].copysign((m21 - m12))
-    qu[..., 2] = qu[..., 2].copysign((m02 - m20))
-    qu[..., 3] = qu[..., 3].copysign((m10 - m01))
+    # the branches give the conjugate, with a relative sign between components
+    # that is also meaningful for half turns: conjugate, then make w non-negative
+    qu[..., 1:] = -qu[..., 1:]
 
-    return qu
+    return torch.where(qu[..., 0:1] < 0, -qu, qu)
 
 
 @torch.jit.script
-- 
2.43.0


From eb2a027ae59cca412802ddbbd3fb9414b9e582a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 006/153] fix: om2ax is defined for the identity and for half
 turns, for any batch shape

---
 ebsdtorch/s2_and_so3/orientations.py | 36 +++++++---------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7222060..df66910 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -144,34 +144,14 @@ def om2ax(matrix: Tensor) -> Tensor:
     if matrix.size(-1) != 3 or matrix.size(-2) != 3:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
-    batch_dim = matrix.shape[:-2]
-
-    # set the output with the same batch dimensions as the input
-    axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
-
-    # Get the trace of the matrix
-    trace = matrix[..., 0, 0] + matrix[..., 1, 1] + matrix[..., 2, 2]
-
-    # find the angles
-    acos_arg = 0.5 * (trace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat theta/sin(theta) as 1
-    stable = theta > 0.001
-    axis[..., 0] = matrix[..., 2, 1] - matrix[..., 1, 2]
-    axis[..., 1] = matrix[..., 0, 2] - matrix[..., 2, 0]
-    axis[..., 2] = matrix[..., 1, 0] - matrix[..., 0, 1]
-    factor = torch.where(stable, 0.5 / torch.sin(theta), 0.5)
-    axis[..., :3] = factor[:, None] * axis[:, :3]
-
-    # normalize the axis
-    axis[..., :3] /= torch.norm(axis[:, :3], dim=-1, keepdim=True)
-
-    # set the angle
-    axis[..., 3] = theta
-
-    return axis.view(batch_dim + (4,))
+    # go through quaternions: the antisymmetric part of the matrix vanishes for
+    # half turns and for the identity, so it cannot give the axis there
+    qu = om2qu(matrix)
+    norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    z_axis = torch.tensor([0, 0, 1], dtype=matrix.dtype, device=matrix.device)
+    axis = torch.where(norm > 0, qu[..., 1:] / norm, z_axis)
+    angle = 2 * torch.atan2(norm, qu[..., 0:1])
+    return torch.cat((axis, angle), dim=-1)
 
 
 @torch.jit.script
-- 
2.43.0


From edce561ce9945e686877fd125ca0243ba5a7b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 007/153] fix: ho2ax no longer snaps rotations below 0.11
 degrees to the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index df66910..14f2951 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -486,7 +486,7 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
         ],
         dim=-1,
     )
-    rot_is_identity = torch.abs(ho_norm_sq) < 1e-6
+    rot_is_identity = ho_norm_sq < 1e-20
     # set the identity rotation
     ax[rot_is_identity] = 0
     ax[..., 2][rot_is_identity] = 1.0
-- 
2.43.0


From 17319b32ce14d07400f0219f6bdf78d775dbeb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 008/153] fix: ho2ax_newton returns a unit axis

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 14f2951..301aa78 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -638,7 +638,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[..., 0:3][~mask_zero] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
+    ax[..., 0:3][~mask_zero] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
     ax[..., 3][~mask_zero] = w_newton
 
     return ax
-- 
2.43.0


From cdb78c756ebb441ee6e7a40209f7a1a40ddefe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 009/153] fix: qu2ro returns the identity instead of NaN for
 the identity quaternion

---
 ebsdtorch/s2_and_so3/orientations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 301aa78..88960ba 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -781,6 +781,10 @@ def qu2ro(qu: Tensor) -> Tensor:
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
     ro[..., 3][mask_zero] = float("inf")
+
+    # identity has no axis: use z like the other conversions
+    mask_identity = torch.sum(torch.abs(qu[..., 1:]), dim=-1) == 0
+    ro[mask_identity] = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
     return ro
 
 
-- 
2.43.0


From 07bfbbd41daba737b3fc078e452769dbedc3c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 010/153] fix: hexagon_to_hemisphere returns points on the unit
 sphere

The disk coordinates were combined with z = 1 - r^2, a paraboloid.
---
 ebsdtorch/crystallography/kvectors.py | 7 +++++--
 ebsdtorch/utils/rosca_lambert.py      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 7a9e3a9..ab0e2b5 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -102,8 +102,11 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
 
-    # undo original swap and compute the z coordinate on the hemisphere
-    out = torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # undo original swap and lift from the unit disk onto the hemisphere with the
+    # inverse Lambert azimuthal equal area projection
+    r_sq = x_out**2 + y_out**2
+    lift = torch.sqrt(torch.clamp(2.0 - r_sq, min=0.0))
+    out = torch.stack((y_out * lift, x_out * lift, 1.0 - r_sq), dim=-1)
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 123528d..08d1964 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -213,8 +213,11 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
 
-    # undo original swap and compute the z coordinate on the hemisphere
-    return torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # undo original swap and lift from the unit disk onto the hemisphere with the
+    # inverse Lambert azimuthal equal area projection
+    r_sq = x_out**2 + y_out**2
+    lift = torch.sqrt(torch.clamp(2.0 - r_sq, min=0.0))
+    return torch.stack((y_out * lift, x_out * lift, 1.0 - r_sq), dim=-1)
 
 
 # import matplotlib.pyplot as plt
-- 
2.43.0


From a2fd4b2e4a0f408cf3f5e002f2ae28a57f5c2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 011/153] fix: inverse Rosca-Lambert maps the center of the
 square to the pole instead of NaN

---
 ebsdtorch/s2_and_so3/sphere.py   |  7 +++++--
 ebsdtorch/utils/rosca_lambert.py | 12 ++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 81b14cb..b117383 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -120,16 +120,19 @@ def inv_rosca_lambert(pts: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
+    # the center of the square is the pole, not 0 / 0
+    ratio = torch.where(x_new > 0, y_new / x_new, 0.0)
+
     # only one case now
     x_hs = (
         (2 * x_new / pi)
         * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
+        * torch.cos(pi * ratio / 4)
     )
     y_hs = (
         (2 * x_new / pi)
         * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
+        * torch.sin(pi * ratio / 4)
     )
     z_out = 1 - (2 * x_new**2 / pi)
 
diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 08d1964..db1d5f9 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -48,6 +48,9 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
         * torch.cos((pi * a[~m]) / (4 * b[~m]))
     )
     output[~m, 2] = 1 - (2 * b[~m] ** 2 / pi)
+    # the center of the square is the pole, not 0 / 0
+    center = (a == 0) & (b == 0)
+    output[center] = torch.tensor([0, 0, 1], dtype=pts.dtype, device=pts.device)
     return output.reshape(shape_in + (3,))
 
 
@@ -79,16 +82,19 @@ def square_to_hemisphere_v2(x: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
+    # the center of the square is the pole, not 0 / 0
+    ratio = torch.where(x_new > 0, y_new / x_new, 0.0)
+
     # only one case now
     x_hs = (
         (2 * x_new / pi)
         * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
+        * torch.cos(pi * ratio / 4)
     )
     y_hs = (
         (2 * x_new / pi)
         * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
+        * torch.sin(pi * ratio / 4)
     )
     z_out = 1 - (2 * x_new**2 / pi)
 
@@ -202,6 +208,8 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     # I_0 sextant equal-area bijection having swapped x & y
     factor = (3.0**0.25) * ((2.0 / pi) ** 0.5) * x_new
     trig_arg = (y_new * pi) / (2.0 * (3.0**0.5) * x_new)
+    # the center of the hexagon is the pole, not 0 / 0
+    trig_arg = torch.where(x_new > 0, trig_arg, 0.0)
     x_hs = factor * torch.cos(trig_arg)
     y_hs = factor * torch.sin(trig_arg)
 
-- 
2.43.0


From 40b1b0dcbb6d84f86b1d7ce0cd05b41c350cda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 012/153] fix: square_to_hemisphere accepts non-contiguous
 input

---
 ebsdtorch/utils/rosca_lambert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index db1d5f9..8819e31 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -20,7 +20,7 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
     # get shape of input
     shape_in = pts.shape[:-1]
     n_pts = int(torch.prod(torch.tensor(shape_in)))
-    pts = pts.view(-1, 2)
+    pts = pts.reshape(-1, 2)
     pi = torch.pi
     a = pts[:, 0] * (pi / 2) ** 0.5
     b = pts[:, 1] * (pi / 2) ** 0.5
-- 
2.43.0


From b71703112feb97680a4c0f5c8d1d64e232ddd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 013/153] fix: theta_phi_to_xyz takes (polar, azimuth) as
 documented and inverts xyz_to_theta_phi

Also accept the documented (...) batch shapes.
---
 ebsdtorch/s2_and_so3/sampling.py |  6 +++---
 ebsdtorch/s2_and_so3/sphere.py   | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sampling.py b/ebsdtorch/s2_and_so3/sampling.py
index e001040..5ba8751 100644
--- a/ebsdtorch/s2_and_so3/sampling.py
+++ b/ebsdtorch/s2_and_so3/sampling.py
@@ -56,9 +56,9 @@ def s2_fibonacci(
         raise ValueError('mode must be either "avg" or "max"')
     # generate the points (they must be doubles for large numbers of points)
     indices = torch.arange(n, dtype=torch.float64, device=device)
-    theta = 2 * torch.pi * indices / phi
-    phi = torch.acos(1 - 2 * (indices + epsilon) / (n - 1 + 2 * epsilon))
-    points = theta_phi_to_xyz(theta, phi)
+    azimuth = 2 * torch.pi * indices / phi
+    polar = torch.acos(1 - 2 * (indices + epsilon) / (n - 1 + 2 * epsilon))
+    points = theta_phi_to_xyz(polar, azimuth)
     return points
 
 
diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index b117383..e803139 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -28,11 +28,11 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.cos(theta) * torch.sin(phi),
+            torch.sin(theta) * torch.cos(phi),
             torch.sin(theta) * torch.sin(phi),
-            torch.cos(phi),
+            torch.cos(theta),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
@@ -51,10 +51,10 @@ def xyz_to_theta_phi(xyz: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.atan2(torch.norm(xyz[:, :2], dim=1), xyz[:, 2]),
-            torch.atan2(xyz[:, 1], xyz[:, 0]),
+            torch.atan2(torch.norm(xyz[..., :2], dim=-1), xyz[..., 2]),
+            torch.atan2(xyz[..., 1], xyz[..., 0]),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
-- 
2.43.0


From 5751a96453eedc4ef3f5063d8b0620af9cfd19ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 014/153] fix: qu_slerp interpolates batches row by row and
 handles equal endpoints

---
 ebsdtorch/s2_and_so3/quaternions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 2f10e34..7d88b41 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -106,12 +106,16 @@ def qu_slerp(a: Tensor, b: Tensor, t: float) -> Tensor:
     """
     a = qu_norm(a)
     b = qu_norm(b)
-    cos_theta = torch.sum(a * b, dim=-1)
-    angle = torch.acos(cos_theta)
+    # angle between them without the cancellation of acos near 0 and pi
+    angle = 2 * torch.atan2(
+        torch.norm(a - b, dim=-1, keepdim=True), torch.norm(a + b, dim=-1, keepdim=True)
+    )
     sin_theta = torch.sin(angle)
-    w1 = torch.sin((1 - t) * angle) / sin_theta
-    w2 = torch.sin(t * angle) / sin_theta
-    return (a.unsqueeze(-1) * w1 + b.unsqueeze(-1) * w2).squeeze(-1)
+    # the endpoints (nearly) coincide: the limit is linear interpolation
+    linear = angle < 1e-6
+    w1 = torch.where(linear, 1 - t, torch.sin((1 - t) * angle) / sin_theta)
+    w2 = torch.where(linear, t, torch.sin(t * angle) / sin_theta)
+    return a * w1 + b * w2
 
 
 @torch.jit.script
-- 
2.43.0


From 7a30f18d9fe5767f7d050e649489b6a42787a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 015/153] fix: qu_angle is not NaN when rounding leaves the
 real part above one

---
 ebsdtorch/s2_and_so3/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 7d88b41..b40abf6 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -282,4 +282,4 @@ def qu_angle(qu: Tensor) -> Tensor:
     Returns:
         tensor of shape (..., ) of rotation angles.
     """
-    return 2 * torch.acos(qu[..., 0])
+    return 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
-- 
2.43.0


From 5bb3b758c1c0ee8a404a25007d96ffc95ac84a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 016/153] fix: quaternion_rotate_sets_sphere rotates opposite
 and nearly aligned points

Both were mapped to the identity; also accept the documented (...) batch shapes.
---
 ebsdtorch/s2_and_so3/quaternions.py | 34 ++++++++++++-----------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index b40abf6..c2cfff4 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -248,27 +248,21 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
         The quaternions, as tensor of shape (..., 4).
 
     """
-    # determine mask for numerical stability
-    valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.999999
-    # get the cross product of the two sets of points
-    cross = torch.cross(points_start[valid], points_finish[valid], dim=-1)
-    # get the dot product of the two sets of points
-    dot = torch.sum(points_start[valid] * points_finish[valid], dim=-1)
-    # get the angle
-    angle = torch.atan2(torch.norm(cross, dim=-1), dot)
-    # add tau to the angle if the cross product is negative
-    angle[angle < 0] += 2 * torch.pi
-    # set the output
-    out = torch.empty(
-        (points_start.shape[0], 4), dtype=points_start.dtype, device=points_start.device
+    # axis from the cross product, half angle from the sum of the unit vectors
+    cross = torch.cross(points_start, points_finish, dim=-1)
+    dot = torch.sum(points_start * points_finish, dim=-1, keepdim=True)
+    out = torch.cat((1 + dot, cross), dim=-1)
+    # opposite points: half turn around any perpendicular axis
+    x, y, z = points_start[..., 0], points_start[..., 1], points_start[..., 2]
+    zero = torch.zeros_like(x)
+    perp = torch.where(
+        (torch.abs(z) < 0.9)[..., None],
+        torch.stack((zero, -y, x, zero), dim=-1),
+        torch.stack((zero, zero, -z, y), dim=-1),
     )
-    out[valid, 0] = torch.cos(angle / 2)
-    out[valid, 1:] = torch.sin(angle / 2).unsqueeze(-1) * (
-        cross / torch.norm(cross, dim=-1, keepdim=True)
-    )
-    out[~valid, 0] = 1
-    out[~valid, 1:] = 0
-    return out
+    opposite = torch.norm(points_start + points_finish, dim=-1, keepdim=True) < 1e-6
+    out = torch.where(opposite, perp, out)
+    return out / torch.norm(out, dim=-1, keepdim=True)
 
 
 @torch.jit.script
-- 
2.43.0


From 0d4f29db2cb2640414f7123f800ad2d7c85c765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 017/153] fix: ho2ax_reference no longer snaps small rotations
 to the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 88960ba..49255b3 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -580,7 +580,7 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
 
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
 
-    rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < 1e-8
+    rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < 1e-20
     ax[..., 0:1][rot_is_identity] = 0.0
     ax[..., 1:2][rot_is_identity] = 0.0
     ax[..., 2:3][rot_is_identity] = 1.0
-- 
2.43.0


From 598491851307a2a3f3897b92ccdbc0958852326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 018/153] fix: space groups 149-155 and 194 map to their own
 Laue groups

---
 ebsdtorch/utils/symmetry_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/symmetry_classes.py b/ebsdtorch/utils/symmetry_classes.py
index 2d54b12..e3f17d0 100644
--- a/ebsdtorch/utils/symmetry_classes.py
+++ b/ebsdtorch/utils/symmetry_classes.py
@@ -7,13 +7,13 @@ def space_group_to_laue(space_group: int) -> int:
         raise ValueError("The space group must be between 1 and 230 inclusive.")
     if space_group > 206:
         laue_group = 11
-    elif space_group > 193:
+    elif space_group > 194:
         laue_group = 10
     elif space_group > 176:
         laue_group = 9
     elif space_group > 167:
         laue_group = 8
-    elif space_group > 155:
+    elif space_group > 148:
         laue_group = 7
     elif space_group > 142:
         laue_group = 6
-- 
2.43.0


From 9c82a3ce6cf0860c67bbc5a74f8fb2e00e8ae0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 019/153] fix: Cell derives point group, crystal system and
 Laue group from the space group

---
 ebsdtorch/crystallography/unit_cell.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fa8e724..e878766 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -192,21 +192,13 @@ class Cell:
         self.sg_setting = sg_setting
 
         # automatically find the point group for the space group
-        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num <= sg]
-        if len(pg_num) == 0:
-            self.pg_num = 32
-        else:
-            self.pg_num = pg_num[0]
+        self.pg_num = sum(sg <= sg_num for sg in sg_pg_beg)
 
         # automatically find the crystal system for the space group
-        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num <= sg]
-        if len(self.xtal_system) == 0:
-            self.xtal_system = 7
-        else:
-            self.xtal_system = self.xtal_system[0]
+        self.xtal_system = sum(sg <= sg_num for sg in sg_xt_beg)
 
         # automatically find the Laue group for the point group
-        self.laue_group = pg_to_laue[self.pg_num]
+        self.laue_group = pg_to_laue[self.pg_num - 1]
 
         self.a, self.b, self.c = map(
             lambda x: torch.tensor(x, device=device, dtype=torch.float64), abc
-- 
2.43.0


From e6046fc28d3c5bdc23199c154f7937c8479d4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 020/153] fix: Laue group numbers outside 1 to 11 are rejected

---
 ebsdtorch/s2_and_so3/laue_generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/laue_generators.py b/ebsdtorch/s2_and_so3/laue_generators.py
index 6db1466..b6a93f5 100644
--- a/ebsdtorch/s2_and_so3/laue_generators.py
+++ b/ebsdtorch/s2_and_so3/laue_generators.py
@@ -48,6 +48,8 @@ def get_laue_mult(laue_group: int) -> int:
         24,  # 10 - Cubic low
         48,  # 11 - Cubic high
     ]
+    if laue_group < 1 or laue_group > 11:
+        raise ValueError(f"Laue group {laue_group} is not between 1 and 11")
     return LAUE_MULTS[laue_group - 1]
 
 
@@ -246,4 +248,6 @@ def laue_elements(laue_id: int) -> Tensor:
         LAUE_O,  #  11 - Cubic high
     ]
 
+    if laue_id < 1 or laue_id > 11:
+        raise ValueError(f"Laue group {laue_id} is not between 1 and 11")
     return LAUE_GROUPS[laue_id - 1]
-- 
2.43.0


From 43cd842122601f6d2df99f46bf86e0fa80f028f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 021/153] fix: Laue group operators have float64 precision

---
 ebsdtorch/s2_and_so3/laue_generators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_generators.py b/ebsdtorch/s2_and_so3/laue_generators.py
index b6a93f5..54f8143 100644
--- a/ebsdtorch/s2_and_so3/laue_generators.py
+++ b/ebsdtorch/s2_and_so3/laue_generators.py
@@ -250,4 +250,8 @@ def laue_elements(laue_id: int) -> Tensor:
 
     if laue_id < 1 or laue_id > 11:
         raise ValueError(f"Laue group {laue_id} is not between 1 and 11")
-    return LAUE_GROUPS[laue_id - 1]
+    elements = LAUE_GROUPS[laue_id - 1]
+
+    # TorchScript rounds lists of floats to float32: restore float64 precision, using
+    # that the square of every component is a multiple of 1/4
+    return torch.sign(elements) * torch.sqrt(torch.round(4.0 * elements**2) / 4.0)
-- 
2.43.0


From fdc692199a120b32096a01f8ac81ddfe499af544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 022/153] fix: ori_to_fz_laue and ori_equiv_laue return
 orientations of the same crystal

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2c8f401..a9e39c9 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -76,7 +76,8 @@ def ori_to_fz_laue(quats: Tensor, laue_id: int) -> Tensor:
     row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
 
     # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
-    output = qu_prod(quats.reshape(N, 4), laue_group[row_maximum_indices])
+    # (orientations take the sample frame to the crystal frame: operators act on the left)
+    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
 
     return output.reshape(data_shape)
 
@@ -100,7 +101,8 @@ def ori_equiv_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_quaternions = qu_prod(quats.reshape(N, 1, 4), laue_group.reshape(-1, 4))
+    # (orientations take the sample frame to the crystal frame: operators act on the left)
+    equivalent_quaternions = qu_prod(laue_group.reshape(-1, 4), quats.reshape(N, 1, 4))
 
     return equivalent_quaternions.reshape(data_shape[:-1] + (len(laue_group), 4))
 
-- 
2.43.0


From 6f1d45488973bbc84e52f88fffb415ca9cb07ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 023/153] fix: cube_to_rfz maps the cube into the Rodrigues
 zone and rfz_to_cube inverts it

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index a9e39c9..0fa4d92 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -264,7 +264,7 @@ def cube_to_rfz(
         # find indices to do the sorting by absolute values
         sorted, indices = torch.sort(cc_abs, dim=-1, descending=False)
         # we are pointing towards the 111 normal plane
-        # find the scaling factor to hit the z = 2**0.5 - 1 face
+        # find the factor between the z = 2**0.5 - 1 face and the 111 face
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
         factors = (
             torch.sum(cc_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
@@ -272,7 +272,7 @@ def cube_to_rfz(
         # replace nans with 1 because we were at the origin
         factors[factors.isnan()] = 1
         # scale the sorted values
-        rfz_coords = torch.where(scales, sorted * factors, sorted)
+        rfz_coords = torch.where(scales, sorted / factors, sorted)
         # scatter the sorted values back to the original order
         rfz_coords = torch.scatter(rfz_coords, -1, indices, rfz_coords)
         # copy the sign of the original values
@@ -305,12 +305,12 @@ def rfz_to_cube(
         # same as above but with reciprocal scaling
         sorted, indices = torch.sort(rfz_abs, dim=-1, descending=False)
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
-        # same factor but we divide by it
+        # same factor but we multiply by it
         factors = (
             torch.sum(rfz_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
         )
         factors[factors.isnan()] = 1
-        cc = torch.where(scales, sorted / factors, sorted)
+        cc = torch.where(scales, sorted * factors, sorted)
         cc = torch.scatter(cc, -1, indices, cc)
         cc.copysign_(rfz)
         return cc
-- 
2.43.0


From 7be8cbea48b95418db6efa1e22ef916e6ee491ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 024/153] fix: disorientations apply each Laue group to its own
 crystal

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 18 +++++++++---------
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcbb1b0..828dc52 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -119,11 +119,11 @@ def disorientation_naive(
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.reshape(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -186,12 +186,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
-        misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
+        misori_quats.reshape(N, 1, 1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 0fa4d92..597f017 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -387,11 +387,11 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.reshape(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -454,12 +454,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
-        misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
+        misori_quats.reshape(N, 1, 1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
-- 
2.43.0


From 7044ba9258b618e252b82f487407c7455b2e15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 025/153] fix: disori_angle_laue is not NaN for equivalent
 orientations and keeps the batch shape

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 4 +++-
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index 828dc52..5dc397e 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -198,6 +198,8 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
 
     # find the largest real part magnitude and return the angle
+    # (rounding can push the real part of equivalent orientations above one)
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
+    cosine_half_angle = torch.clamp(cosine_half_angle, max=1.0)
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    return 2.0 * torch.acos(cosine_half_angle).reshape(data_shape[:-1])
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 597f017..a249a51 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -466,9 +466,11 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
 
     # find the largest real part magnitude and return the angle
+    # (rounding can push the real part of equivalent orientations above one)
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
+    cosine_half_angle = torch.clamp(cosine_half_angle, max=1.0)
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    return 2.0 * torch.acos(cosine_half_angle).reshape(data_shape[:-1])
 
 
 @torch.jit.script
-- 
2.43.0


From 10e8e82726354f72464f75befd36cbf2a1f81aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 026/153] fix: s2_equiv_laue returns the whole orbit instead of
 failing

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 4a312bf..13b1793 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -174,7 +174,7 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(N, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
@@ -204,7 +204,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
         laue_id: laue group of points to move to fundamental zone
 
     Returns:
-        points in fundamental zone of shape (..., |laue_group|, 3)
+        equivalent points of shape (..., |laue_group|, 3), inversion included
 
     """
 
@@ -214,12 +214,12 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(N, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    return equivalent_points.reshape(data_shape[:-1] + (len(laue_group), 3))
+    return equivalent_points.reshape(data_shape[:-1] + (2 * len(laue_group), 3))
 
 
 @torch.jit.script
-- 
2.43.0


From 6313c5cf98537667258eeeeda820063c663efb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 027/153] fix: s2_in_fz_laue includes the pole and the sector
 boundaries for every Laue group

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 13b1793..a49792e 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -49,7 +49,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     x, y, z = points[..., 0], points[..., 1], points[..., 2]
 
     eta = torch.atan2(y, x)
-    chi = torch.acos(z)
+    chi = torch.acos(torch.clamp(z, -1.0, 1.0))
 
     if laue_id == 1:  # triclinic
         cond = z >= 0.0
@@ -87,17 +87,19 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
             torch.where(
                 eta.gt(PI_4),
                 chi
-                < torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
+                <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.gt(0.0)
-            & eta.lt(PI_4 + EPS)
-            & chi.gt(0.0)
+            & eta.ge(0.0)
+            & eta.le(PI_4 + EPS)
+            & chi.ge(0.0)
         )
     else:
         raise ValueError(f"Laue id {laue_id} not in [1, 11]")
-    return cond
+
+    # the azimuth of the pole is undefined, but the pole is a corner of every sector
+    return cond | ((x == 0.0) & (y == 0.0) & (z > 0.0))
 
 
 # # get planar coordinates that are within the fundamental sector
-- 
2.43.0


From fc9b5d2f027d433f208a98548c3757e356d710c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 028/153] fix: s2_to_fz_laue returns one representative for
 every direction

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 49 ++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index a49792e..bf298f8 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -10,6 +10,8 @@ https://github.com/EMsoft-org/EMsoftOO/blob/develop/Source/EMsoftOOLib/mod_IPFsu
 
 """
 
+import math
+
 import torch
 from torch import Tensor
 
@@ -181,18 +183,41 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    # find the points that are in the s2 fundamental zone
-    cond = s2_in_fz_laue(equivalent_points, laue_id)
-
-    # # in cases of more than one true value, set the first one to true
-    # more_trues = torch.sum(cond, dim=-1) >= 2
-    # cond[more_trues, 1:] = False
-
-    # # in cases of no true values, set the first one to true
-    # non_true = torch.sum(cond, dim=-1) == 0
-    # cond[non_true, 0] = True
-
-    return equivalent_points[cond].reshape(data_shape)
+    # (azimuth, polar angle) in degrees of a direction inside the fundamental sector
+    INSIDE = [
+        (0.0, 0.0),
+        (90.0, 45.0),
+        (45.0, 45.0),
+        (45.0, 45.0),
+        (22.5, 45.0),
+        (-60.0, 45.0),
+        (-60.0, 45.0),
+        (30.0, 45.0),
+        (15.0, 45.0),
+        (45.0, 27.0),
+        (22.5, 22.5),
+    ]
+    eta, chi = INSIDE[laue_id - 1]
+    eta, chi = eta * torch.pi / 180.0, chi * torch.pi / 180.0
+    inside = torch.tensor(
+        [math.cos(eta) * math.sin(chi), math.sin(eta) * math.sin(chi), math.cos(chi)],
+        dtype=points.dtype,
+        device=points.device,
+    )
+
+    # find the points that are in the s2 fundamental zone: points on its boundary are
+    # nudged inwards, so that rounding cannot leave a point without representative
+    nudge = 1e-10 if points.dtype == torch.float64 else 1e-5
+    nudged = equivalent_points + nudge * inside
+    nudged = nudged / torch.norm(nudged, dim=-1, keepdim=True)
+    cond = s2_in_fz_laue(nudged, laue_id)
+
+    # boundary points can have more than one representative: take the first one
+    first = torch.argmax(cond.to(torch.uint8), dim=-1)
+
+    return equivalent_points[torch.arange(N, device=points.device), first].reshape(
+        data_shape
+    )
 
 
 @torch.jit.script
-- 
2.43.0


From 6d767d0133061ad22986eebf7f7786a5c19c8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 029/153] fix: sample_s2_fz_laue_rosca no longer returns twice
 the requested number of samples

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index bf298f8..2ea7b4f 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -312,7 +312,8 @@ def sample_s2_fz_laue_rosca(
     laue_mult = get_laue_mult(laue_id)
 
     # estimate the edge length of the square
-    edge_length = int((target_n_samples * laue_mult) ** 0.5)
+    # (the sector covers a 2 / laue_mult share of the Northern hemisphere)
+    edge_length = int((target_n_samples * laue_mult / 2) ** 0.5)
 
     # make a meshgrid and flatten it on the square [-1, 1] x [-1, 1]
     x = torch.linspace(-1.0, 1.0, edge_length, device=device)
-- 
2.43.0


From 445d7b806532e239d6447ee75e085319963a902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 030/153] fix: sample_ori_fz_laue_angle honours the angular
 resolution for every Laue group

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index a249a51..5b93c49 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -541,14 +541,9 @@ def sample_ori_fz_laue_angle(
         torch tensor of shape (n_samples, 4) containing the sampled orientations
 
     """
-    # get the multiplicity of the laue group
-    laue_mult = get_laue_mult(laue_id)
-
-    # use empirical fit to get the number of samples
-    n_so3_without_symmetry = (
-        2 * (131.97049) / (angular_resolution_deg - 0.03732) + 1
-    ) ** 3
-    edge_length = int((n_so3_without_symmetry / (0.5 * laue_mult)) ** (1.0 / 3.0) + 1.0)
+    # use empirical fit to get the edge length of the grid over all of SO(3)
+    # (symmetry lowers the number of samples that are kept, not their spacing)
+    edge_length = int(2 * (131.97049) / (angular_resolution_deg - 0.03732) + 1 + 1.0)
     so3_samples = so3_cubochoric_grid(edge_length, device=device)
 
     # reject the points that are not in the fundamental zone
-- 
2.43.0


From e9e250a7ed537b695f8560a0ba720cd2b45e1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 031/153] fix: s2_in_fz_laue tolerates rounding on both azimuth
 bounds of a sector

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 2ea7b4f..14a24bb 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -56,19 +56,19 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     if laue_id == 1:  # triclinic
         cond = z >= 0.0
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(0.0) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(0.0) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(0.0) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(PI_n23 - EPS) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-PI_2 - EPS) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(0.0) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 10:  # cubic-low
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
@@ -79,7 +79,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(-EPS)
             & eta.le(PI_2 + EPS)
             & chi.ge(0.0)
         )
@@ -93,7 +93,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(-EPS)
             & eta.le(PI_4 + EPS)
             & chi.ge(0.0)
         )
-- 
2.43.0


From e55589d8c92ba8d838e442c4d3fa7f22ec9fa3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 032/153] fix: SE(3) logarithm is accurate near pi and for any
 batch shape

The matrix logarithms broadcast the angle factor against the wrong axis for
anything but a one dimensional batch, treated theta/sin(theta) as one up to 0.01
rad and divided by sin(theta) near pi. The Taylor branches wrote through boolean
masks, which fails for a single unbatched twist.
---
 ebsdtorch/lie_algebra/se3.py | 212 ++++++++++++++++-------------------
 1 file changed, 97 insertions(+), 115 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index d304a75..02c6cc0 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -89,12 +89,12 @@ def skew(omega: Tensor) -> Tensor:
     data_shape = omega.shape[:-1]
     data_n = int(torch.prod(torch.tensor(data_shape)))
     out = torch.zeros((data_n, 3, 3), dtype=omega.dtype, device=omega.device)
-    out[..., 0, 1] = -omega[..., 2].view(-1)
-    out[..., 0, 2] = omega[..., 1].view(-1)
-    out[..., 1, 2] = -omega[..., 0].view(-1)
-    out[..., 1, 0] = omega[..., 2].view(-1)
-    out[..., 2, 0] = -omega[..., 1].view(-1)
-    out[..., 2, 1] = omega[..., 0].view(-1)
+    out[..., 0, 1] = -omega[..., 2].reshape(-1)
+    out[..., 0, 2] = omega[..., 1].reshape(-1)
+    out[..., 1, 2] = -omega[..., 0].reshape(-1)
+    out[..., 1, 0] = omega[..., 2].reshape(-1)
+    out[..., 2, 0] = -omega[..., 1].reshape(-1)
+    out[..., 2, 1] = omega[..., 0].reshape(-1)
     return out.view(data_shape + (3, 3))
 
 
@@ -116,28 +116,25 @@ def w_exp(omega: Tensor) -> Tensor:
     skew_sq = torch.matmul(skew_mat, skew_mat)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.001)[..., 0, 0]
+    stable = theta > 0.001
+    safe = torch.where(stable, theta, torch.ones_like(theta))
 
     # This prefactor is only used for the calculation of exp(skew)
     # sin(theta) / theta
     # expression: 1 - theta^2 / 6 + theta^4 / 120 - theta^6 / 5040 ...
-    prefactor1 = 1 - theta[~stable] ** 2 / 6 + theta[~stable] ** 4 / 120
+    prefactor1 = 1 - theta ** 2 / 6 + theta ** 4 / 120
 
     # This prefactor is shared between calculations of exp(skew) and v
     # (1 - cos(theta)) / theta^2
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    prefactor2 = 1 / 2 - theta[~stable] ** 2 / 24 + theta[~stable] ** 4 / 720
+    prefactor2 = 1 / 2 - theta ** 2 / 24 + theta ** 4 / 720
 
-    skew_exp = torch.empty_like(skew_mat)
-    skew_exp[stable] = (
+    factor1 = torch.where(stable, torch.sin(safe) / safe, prefactor1)
+    factor2 = torch.where(stable, (1 - torch.cos(safe)) / safe**2, prefactor2)
+    skew_exp = (
         torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (torch.sin(theta[stable]) / theta[stable]) * skew_mat[stable]
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_sq[stable]
-    )
-    skew_exp[~stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor1 * skew_mat[~stable]
-        + prefactor2 * skew_sq[~stable]
+        + factor1 * skew_mat
+        + factor2 * skew_sq
     )
     return skew_exp
 
@@ -161,47 +158,38 @@ def w_exp_vmat(omega: Tensor) -> Tuple[Tensor, Tensor]:
     skew_sq = torch.matmul(skew_mat, skew_mat)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.001)[..., 0, 0]
+    stable = theta > 0.001
+    safe = torch.where(stable, theta, torch.ones_like(theta))
 
     # This prefactor is only used for the calculation of exp(skew)
     # sin(theta) / theta
     # expression: 1 - theta^2 / 6 + theta^4 / 120 - theta^6 / 5040 ...
-    prefactor1 = 1 - theta[~stable] ** 2 / 6
+    prefactor1 = 1 - theta ** 2 / 6
 
     # This prefactor is shared between calculations of exp(skew) and v
     # (1 - cos(theta)) / theta^2
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    prefactor2 = 1 / 2 - theta[~stable] ** 2 / 24
+    prefactor2 = 1 / 2 - theta ** 2 / 24
 
     # This prefactor is only used for the calculation of v
     # (theta - sin(theta)) / theta^3
     # expression: 1/6 - theta^2 / 120 + theta^4 / 5040 - theta^6 / 362880 ...
-    prefactor3 = 1 / 6 - theta[~stable] ** 2 / 120
+    prefactor3 = 1 / 6 - theta ** 2 / 120
 
-    skew_exp = torch.empty_like(skew_mat)
-    skew_exp[stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (torch.sin(theta[stable]) / theta[stable]) * skew_mat[stable]
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_sq[stable]
-    )
-    skew_exp[~stable] = (
+    factor1 = torch.where(stable, torch.sin(safe) / safe, prefactor1)
+    factor2 = torch.where(stable, (1 - torch.cos(safe)) / safe**2, prefactor2)
+    skew_exp = (
         torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor1 * skew_mat[~stable]
-        + prefactor2 * skew_sq[~stable]
+        + factor1 * skew_mat
+        + factor2 * skew_sq
     )
     # skew_exp = torch.matrix_exp(skew_mat)
 
-    v = torch.empty_like(skew_mat)
-    v[stable] = (
+    factor3 = torch.where(stable, (safe - torch.sin(safe)) / safe**3, prefactor3)
+    v = (
         torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_mat[stable]
-        + ((theta[stable] - torch.sin(theta[stable])) / theta[stable] ** 3)
-        * skew_sq[stable]
-    )
-    v[~stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor2 * skew_mat[~stable]
-        + prefactor3 * skew_sq[~stable]
+        + factor2 * skew_mat
+        + factor3 * skew_sq
     )
 
     return skew_exp, v
@@ -224,30 +212,24 @@ def w_to_v(omega: Tensor) -> Tensor:
     skew_omega2 = torch.matmul(skew_omega, skew_omega)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05)[..., 0, 0]
+    stable = theta > 0.05
+    safe = torch.where(stable, theta, torch.ones_like(theta))
 
     # (1 - cos(theta)) / theta^2
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    factor1 = 1 / 2 - theta[~stable] ** 2 / 24 + theta[~stable] ** 4 / 720
+    factor1 = 1 / 2 - theta ** 2 / 24 + theta ** 4 / 720
 
     # (theta - sin(theta)) / theta^3
     # expression: 1/6 - theta^2 / 120 + theta^4 / 5040 - theta^6 / 362880 ...
-    factor2 = 1 / 6 - theta[~stable] ** 2 / 120 + theta[~stable] ** 4 / 5040
+    factor2 = 1 / 6 - theta ** 2 / 120 + theta ** 4 / 5040
 
-    v = torch.empty_like(skew_omega)
-
-    v[stable] = (
+    factor1 = torch.where(stable, (1 - torch.cos(safe)) / safe**2, factor1)
+    factor2 = torch.where(stable, (safe - torch.sin(safe)) / safe**3, factor2)
+    return (
         torch.eye(3, dtype=omega.dtype, device=omega.device)
-        + ((1 - torch.cos(theta[stable])) / theta[stable] ** 2) * skew_omega[stable]
-        + ((theta[stable] - torch.sin(theta[stable])) / theta[stable] ** 3)
-        * skew_omega2[stable]
+        + factor1 * skew_omega
+        + factor2 * skew_omega2
     )
-    v[~stable] = (
-        torch.eye(3, dtype=omega.dtype, device=omega.device)
-        + factor1 * skew_omega[~stable]
-        + factor2 * skew_omega2[~stable]
-    )
-    return v
 
 
 @torch.jit.script
@@ -266,30 +248,20 @@ def w_to_v_inv(omega: Tensor) -> Tensor:
     skew_omega = skew(omega)
     skew_omega2 = torch.matmul(skew_omega, skew_omega)
 
-    v_inv = torch.empty_like(skew_omega)
-    stable = (theta > 0.05)[..., 0, 0]
-    v_inv[stable] = (
-        torch.eye(3, dtype=omega.dtype, device=omega.device)
-        - 0.5 * skew_omega[stable]
-        + (
-            1
-            - (
-                theta[stable]
-                * torch.cos(theta[stable] / 2.0)
-                / (2 * torch.sin(theta[stable] / 2.0))
-            )
-        )
-        / theta[stable] ** 2
-        * skew_omega2[stable]
-    )
+    # Taylor expansion for small angles of the factor
+    stable = theta > 0.05
+    safe = torch.where(stable, theta, torch.ones_like(theta))
+
     # (1 - theta * cos(theta / 2) / (2 * sin(theta / 2))) / theta^2
     # expression: 1/12 + 1/720 * theta^2 + 1/30240 * theta^4
-    factor_approx = 1 / 12 + theta[~stable] ** 2 / 720 + theta[~stable] ** 4 / 30240
-
-    v_inv[~stable] = (
+    factor_exact = (
+        1 - (safe * torch.cos(safe / 2.0) / (2 * torch.sin(safe / 2.0)))
+    ) / safe**2
+    factor_approx = 1 / 12 + theta**2 / 720 + theta**4 / 30240
+    v_inv = (
         torch.eye(3, dtype=omega.dtype, device=omega.device)
-        - 0.5 * skew_omega[~stable]
-        + factor_approx * skew_omega2[~stable]
+        - 0.5 * skew_omega
+        + torch.where(stable, factor_exact, factor_approx) * skew_omega2
     )
 
     return v_inv
@@ -403,6 +375,52 @@ def se3_exp_map_split(vecs: Tensor) -> Tuple[Tensor, Tensor]:
     return rexp, tvec
 
 
+@torch.jit.script
+def om_to_w(R: Tensor) -> Tensor:
+    """
+    Compute the scaled rotation axis of a rotation matrix. This is the logarithm map
+    of SO(3) for angles from 0 up to pi.
+
+    Args:
+        R: torch tensor of shape (..., 3, 3) containing the rotation matrix
+
+    Returns:
+        torch tensor of shape (..., 3) containing omega
+
+    """
+    # the skew part of the rotation matrix is sin(theta) * axis
+    sin_axis = 0.5 * torch.stack(
+        (
+            R[..., 2, 1] - R[..., 1, 2],
+            R[..., 0, 2] - R[..., 2, 0],
+            R[..., 1, 0] - R[..., 0, 1],
+        ),
+        dim=-1,
+    )
+    sin_theta = torch.linalg.norm(sin_axis, dim=-1, keepdim=True)
+    cos_theta = 0.5 * (torch.diagonal(R, dim1=-2, dim2=-1).sum(-1, keepdim=True) - 1.0)
+    theta = torch.atan2(sin_theta, cos_theta)
+
+    # where the angle is small, treat (theta / sin(theta)) as 1
+    tiny = sin_theta < 1e-12
+    safe_sin = torch.where(tiny, torch.ones_like(sin_theta), sin_theta)
+    omegas_skew = sin_axis * torch.where(tiny, torch.ones_like(theta), theta / safe_sin)
+
+    # the skew part vanishes near pi: use the largest column of the symmetric part,
+    # which is cos(theta) * I + (1 - cos(theta)) * axis axis^T
+    eye = torch.eye(3, dtype=R.dtype, device=R.device)
+    outer = 0.5 * (R + R.transpose(-1, -2)) - cos_theta[..., None] * eye
+    column = torch.argmax(torch.diagonal(outer, dim1=-2, dim2=-1), dim=-1, keepdim=True)
+    index = column[..., None].expand(column.shape[:-1] + (3, 1))
+    axis = torch.gather(outer, -1, index)[..., 0]
+    norm = torch.linalg.norm(axis, dim=-1, keepdim=True)
+    axis = axis / torch.where(norm > 0.0, norm, torch.ones_like(norm))
+    flip = (axis * sin_axis).sum(-1, keepdim=True) < 0.0
+    omegas_sym = theta * torch.where(flip, -axis, axis)
+
+    return torch.where(cos_theta < 0.0, omegas_sym, omegas_skew)
+
+
 @torch.jit.script
 def se3_log_map_om(se3: Tensor) -> Tensor:
     """
@@ -417,25 +435,7 @@ def se3_log_map_om(se3: Tensor) -> Tensor:
     """
     data_shape = se3.shape[:-2]
 
-    # omega is (theta / 2 sin(theta)) * (R32 - R23, R13 - R31, R21 - R12)
-    omegas = torch.zeros(data_shape + (3,), dtype=se3.dtype, device=se3.device)
-
-    # find the trace of the rotation matrix portion
-    rtrace = torch.diagonal(se3[..., :3, :3], dim1=-2, dim2=-1).sum(-1)
-    # rtrace = torch.einsum("...ii", se3[..., :3, :3])
-
-    # find the angles
-    acos_arg = 0.5 * (rtrace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat (theta/sin(theta)) as 1
-    stable = theta > 0.01
-    omegas[..., 0] = se3[..., 2, 1] - se3[..., 1, 2]
-    omegas[..., 1] = se3[..., 0, 2] - se3[..., 2, 0]
-    omegas[..., 2] = se3[..., 1, 0] - se3[..., 0, 1]
-    factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = om_to_w(se3[..., :3, :3])
 
     v_inv = w_to_v_inv(omegas)
     tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).view(data_shape + (3,))
@@ -458,25 +458,7 @@ def se3_log_map_split(R: Tensor, tvec: Tensor) -> Tensor:
     """
     data_shape = R.shape[:-2]
 
-    # omega is (theta / 2 sin(theta)) * (R32 - R23, R13 - R31, R21 - R12)
-    omegas = torch.zeros(data_shape + (3,), dtype=R.dtype, device=R.device)
-
-    # find the trace of the rotation matrix portion
-    rtrace = torch.diagonal(R, dim1=-2, dim2=-1).sum(-1)
-    # rtrace = torch.einsum("...ii", se3[..., :3, :3])
-
-    # find the angles
-    acos_arg = 0.5 * (rtrace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat (theta/sin(theta)) as 1
-    stable = theta > 0.0001
-    omegas[..., 0] = R[..., 2, 1] - R[..., 1, 2]
-    omegas[..., 1] = R[..., 0, 2] - R[..., 2, 0]
-    omegas[..., 2] = R[..., 1, 0] - R[..., 0, 1]
-    factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = om_to_w(R)
 
     v_inv = w_to_v_inv(omegas)
     tau = torch.matmul(v_inv, tvec[..., None]).view(data_shape + (3,))
-- 
2.43.0


From 6960a3683046f1acf6623caa33808eb636f4e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 033/153] fix: bruker_geometry_from_SE3 recovers signed tilts
 and leaves its input alone

acos lost the sign of the tilts (the usual -70 degrees came back as +70 with a
wrong pattern center) and clamp_ wrote into the rotation matrix of the caller.
---
 ebsdtorch/ebsd/fitting.py  | 7 +++----
 ebsdtorch/ebsd/geometry.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b48cdd..37472ad 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -133,10 +133,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # atan2 keeps the signs of the tilts (and does not touch the rotation matrix)
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index e8f77db..f4f6323 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -113,10 +113,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # atan2 keeps the signs of the tilts (and does not touch the rotation matrix)
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From 333a494f01afa9a2f2f4f87e8eac68e13b769353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 034/153] fix: pixel grids end at the last pixel center

The grids spanned H + 1 pixels with H samples, stretching the simulated detector by
H / (H - 1), and the padded grid of the pattern center fitter counted its padding
in unbinned pixels while the padding is in binned pixels.
---
 ebsdtorch/ebsd/fitting.py        | 18 ++++++++++++------
 ebsdtorch/ebsd/geometry.py       |  4 ++--
 ebsdtorch/ebsd/project_hrebsd.py |  4 ++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 37472ad..440da9f 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -190,14 +190,14 @@ def get_3D_pixel_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
@@ -257,15 +257,21 @@ def get_3D_pixel_coords_with_periphery(
     pixel_coordinates = torch.stack(
         torch.meshgrid(
             torch.linspace(
-                0.5 * (binning_fp - 1) - h_pad_prior,
-                detector_shape[0] + h_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - h_pad_prior * binning_fp,
+                detector_shape[0]
+                - 1
+                + h_pad_after * binning_fp
+                - (0.5 * (binning_fp - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
-                0.5 * (binning_fp - 1) - w_pad_prior,
-                detector_shape[1] + w_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - w_pad_prior * binning_fp,
+                detector_shape[1]
+                - 1
+                + w_pad_after * binning_fp
+                - (0.5 * (binning_fp - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index f4f6323..1bc4c4a 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -482,14 +482,14 @@ class EBSDGeometry(Module):
             torch.meshgrid(
                 torch.linspace(
                     0.5 * (binning_fp[0] - 1),
-                    self.detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                    self.detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                     binned_shape[0],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
                 ),
                 torch.linspace(
                     0.5 * (binning_fp[1] - 1),
-                    self.detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                    self.detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                     binned_shape[1],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
diff --git a/ebsdtorch/ebsd/project_hrebsd.py b/ebsdtorch/ebsd/project_hrebsd.py
index 0ffb98b..c92f9b1 100644
--- a/ebsdtorch/ebsd/project_hrebsd.py
+++ b/ebsdtorch/ebsd/project_hrebsd.py
@@ -60,14 +60,14 @@ def hrebsd_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,  # is always on model device
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,  # is always on model device
-- 
2.43.0


From ed99402eed556a2a03096b034b99e744c3da4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 035/153] fix: EBSDGeometry projections keep the shape and
 dtype of their input

get_detector2sample returned a leading singleton dimension, which leaked into the
back projection of (N, 3) rays, and double precision coordinates failed.
---
 ebsdtorch/ebsd/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 1bc4c4a..a066e17 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -273,8 +273,8 @@ class EBSDGeometry(Module):
         detector_2_sample = self.pc_SE3_matrix @ tune_se3
 
         # split the SE3 matrix into rotation and translation
-        rotation_matrix = detector_2_sample[..., :3, :3]
-        translation_vector = detector_2_sample[..., :3, 3]
+        rotation_matrix = detector_2_sample[0, :3, :3]
+        translation_vector = detector_2_sample[0, :3, 3]
 
         return rotation_matrix, translation_vector
 
@@ -321,6 +321,9 @@ class EBSDGeometry(Module):
         # get the transformation matrix
         rotation_matrix, translation_vector = self.get_detector2sample()
 
+        rotation_matrix = rotation_matrix.to(pixel_coordinates.dtype)
+        translation_vector = translation_vector.to(pixel_coordinates.dtype)
+
         # convert to 3D coordinates
         pixel_coordinates = torch.cat(
             [pixel_coordinates, torch.zeros_like(pixel_coordinates[..., 0:1])], dim=-1
@@ -373,6 +376,8 @@ class EBSDGeometry(Module):
 
         # get the transformation matrix
         rotation_matrix, translation_vector = self.get_detector2sample()
+        rotation_matrix = rotation_matrix.to(ray_directions.dtype)
+        translation_vector = translation_vector.to(ray_directions.dtype)
 
         if scan_coordinates is not None:
             # add the scan coordinates to the ray directions to get the sample coordinates
-- 
2.43.0


From 45f9e65af84b799600c2e1c049a8f637d8f72e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 036/153] fix: virtual binning of a master pattern follows the
 factor and the current pattern

The binned pattern was cached on first use: later lookups with another factor, or
after normalize, apply_clahe or a move to another dtype, used the stale copy.
---
 ebsdtorch/ebsd/master_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b3d50cf..f5bb941 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -167,9 +167,9 @@ class MasterPattern(Module):
             coords_3D = coords_3D / torch.norm(coords_3D, dim=-1, keepdim=True)
 
         # blur the master pattern if virtual binning is used
+        # (recomputed from the current pattern, it is negligible next to the sampling)
         if virtual_binning > 1:
-            if self.master_pattern_binned is None:
-                self.bin(virtual_binning)
+            self.bin(virtual_binning)
             master_pattern_prep = self.master_pattern_binned
         else:
             master_pattern_prep = self.master_pattern
-- 
2.43.0


From 4abe3b8b0a5ac524b53fd6547cb626a8142aee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 037/153] fix: binning a master pattern keeps its hemispheres
 apart and aligned

EMsoft hemispheres are 2 n + 1 wide: pooling the side by side image mixed both
hemispheres in the central column, dropped the last row and so shifted every lookup.
---
 ebsdtorch/ebsd/master_pattern.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index f5bb941..ca1c971 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -108,9 +108,22 @@ class MasterPattern(Module):
         # )
         # self.master_pattern_binned = blurrer(self.master_pattern[None, None, ...])[0, 0]
 
-        self.master_pattern_binned = torch.nn.functional.avg_pool2d(
-            self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
-        )[0, 0]
+        # bin the hemispheres on their own, over their full extent: their width is
+        # usually odd and a common pooling would mix them and drop the last row
+        H, W = self.master_pattern.shape
+        hemispheres = torch.stack(torch.chunk(self.master_pattern, 2, dim=-1))
+        self.master_pattern_binned = torch.cat(
+            torch.unbind(
+                torch.nn.functional.adaptive_avg_pool2d(
+                    hemispheres,
+                    (
+                        max(1, int(H / binning_factor)),
+                        max(1, int(W // 2 / binning_factor)),
+                    ),
+                )
+            ),
+            dim=-1,
+        )
 
     def normalize(
         self,
-- 
2.43.0


From d0e9a0b3cb70fe8267d36266f1729c4f8a7ee584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 038/153] fix: MasterPattern.normalize does not write into the
 tensor it was built from

---
 ebsdtorch/ebsd/master_pattern.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index ca1c971..b8af081 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -139,13 +139,14 @@ class MasterPattern(Module):
         if norm_type == "minmax":
             pat_mins = torch.min(self.master_pattern)
             pat_maxs = torch.max(self.master_pattern)
-            self.master_pattern -= pat_mins
-            self.master_pattern /= 1e-4 + pat_maxs - pat_mins
+            self.master_pattern = (self.master_pattern - pat_mins) / (
+                1e-4 + pat_maxs - pat_mins
+            )
         elif norm_type == "zeromean":
-            self.master_pattern -= torch.mean(self.master_pattern)
+            self.master_pattern = self.master_pattern - torch.mean(self.master_pattern)
         elif norm_type == "standard":
-            self.master_pattern -= torch.mean(self.master_pattern)
-            self.master_pattern /= torch.std(self.master_pattern)
+            self.master_pattern = self.master_pattern - torch.mean(self.master_pattern)
+            self.master_pattern = self.master_pattern / torch.std(self.master_pattern)
         else:
             raise ValueError(
                 f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
-- 
2.43.0


From c458a4e65d911b829253204d07cfb0bf6990b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 039/153] fix: master pattern lookups do not blend the
 hemispheres at the equator

Between the two images the bilinear interpolation mixed the northern and southern
hemispheres at directions that are 180 degrees apart.
---
 ebsdtorch/ebsd/master_pattern.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b8af081..41d83b9 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -191,6 +191,18 @@ class MasterPattern(Module):
         # project to the square [-1, 1] x [-1, 1]
         projected_coords_2D = rosca_lambert_side_by_side(coords_3D)
 
+        # stay within the hemisphere at the seam between the two images, where sampling
+        # would blend in the opposite side of the other hemisphere
+        if not align_corners:
+            half_pixel = 1.0 / master_pattern_prep.shape[-1]
+            x = projected_coords_2D[..., 0]
+            x = torch.where(
+                coords_3D[..., 2] < 0,
+                torch.clamp(x, min=half_pixel),
+                torch.clamp(x, max=-half_pixel),
+            )
+            projected_coords_2D = torch.stack((x, projected_coords_2D[..., 1]), dim=-1)
+
         # we want to accept a generic number of dimensions (..., 2)
         # grid_sample will perform extremely poorly when given grid shaped:
         # (1, 1000000000, 1, 2) or (1, 1, 1000000000, 2) etc.
@@ -206,7 +218,7 @@ class MasterPattern(Module):
                 self.factor_dict = {}
             self.factor_dict[n_elem] = H_pseudo, W_pseudo
 
-        projected_coords_2D = projected_coords_2D.view(H_pseudo, W_pseudo, 2)
+        projected_coords_2D = projected_coords_2D.reshape(H_pseudo, W_pseudo, 2)
 
         output = torch.nn.functional.grid_sample(
             # master patterns are viewed as (1, 1, H_master, 2*W_master)
@@ -220,7 +232,7 @@ class MasterPattern(Module):
         )
 
         # reshape back to the original shape using coords_3D as a template
-        return output.view(coords_3D.shape[:-1])
+        return output.reshape(coords_3D.shape[:-1])
 
     def apply_clahe(
         self,
-- 
2.43.0


From 4add912c8d485c9f2634069b1d3b2ffabb7327fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 040/153] fix: clahe_grayscale accepts double precision and non
 contiguous images

---
 ebsdtorch/preprocessing/clahe.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index fb5609d..63b6b14 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -60,7 +60,7 @@ def clahe_grayscale(
     tiles = torch.nn.functional.unfold(
         x_padded, kernel_size=(h_tile, w_tile), stride=(h_tile, w_tile)
     )
-    tiles = tiles.view((B, voxels_per_tile, n_tiles))
+    tiles = tiles.reshape((B, voxels_per_tile, n_tiles))
     # permute from (B, voxels_per_tile, n_tiles) to (B, n_tiles, voxels_per_tile)
     tiles = tiles.swapdims(-1, -2)  # tiles are ordered row-major
     # here we pre-allocate the pdf tensor to avoid having all residuals in memory at once
@@ -99,11 +99,11 @@ def clahe_grayscale(
         h_grid,
         w_grid,
         n_bins,
-    )
+    ).to(x.dtype)
     coords = torch.meshgrid(
         [
-            torch.linspace(-1.0, 1.0, w_img, device=x.device),
-            torch.linspace(-1.0, 1.0, h_img, device=x.device),
+            torch.linspace(-1.0, 1.0, w_img, dtype=x.dtype, device=x.device),
+            torch.linspace(-1.0, 1.0, h_img, dtype=x.dtype, device=x.device),
         ],
         indexing="xy",
     )
@@ -113,7 +113,7 @@ def clahe_grayscale(
     # we have to use trilinear as tri-cubic is not available
     coords_into_cdfs = torch.cat(
         [
-            x[..., None].view(B, 1, h_img, w_img, 1) * 2.0 - 1.0,
+            x.reshape(B, 1, h_img, w_img, 1) * 2.0 - 1.0,
             coords[None, None].repeat(B, 1, 1, 1, 1),
         ],
         dim=-1,
-- 
2.43.0


From f039dc028c284db0a649801d20ab207b922f0261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 041/153] fix: CLAHE blends the tiles at the positions of the
 pixels

The blending grid stretched the image over the padded grid of tiles, so images that
the grid does not divide were equalized with the histograms of the wrong tiles.
---
 ebsdtorch/preprocessing/clahe.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index 63b6b14..c24c298 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -100,10 +100,15 @@ def clahe_grayscale(
         w_grid,
         n_bins,
     ).to(x.dtype)
+    # pixel centers relative to the (padded) grid of tiles
     coords = torch.meshgrid(
         [
-            torch.linspace(-1.0, 1.0, w_img, dtype=x.dtype, device=x.device),
-            torch.linspace(-1.0, 1.0, h_img, dtype=x.dtype, device=x.device),
+            (torch.arange(w_img, dtype=x.dtype, device=x.device) + 0.5)
+            * (2.0 / (w_tile * w_grid))
+            - 1.0,
+            (torch.arange(h_img, dtype=x.dtype, device=x.device) + 0.5)
+            * (2.0 / (h_tile * h_grid))
+            - 1.0,
         ],
         indexing="xy",
     )
-- 
2.43.0


From 3bba181c71f3cdd233ee81937678242636d55075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 042/153] fix: CLAHE histograms are exact pixel counts

Normalizing to a pdf and back left rounding residue, which the redistribution of the
clipped pixels turned into a whole spurious count in the darkest bin.
---
 ebsdtorch/preprocessing/clahe.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index c24c298..b305804 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -74,9 +74,8 @@ def clahe_grayscale(
         value=1,
         reduce="add",
     )
-    pdf = pdf / pdf.sum(dim=-1, keepdim=True)
-    # pdf is handled in pixel counts for OpenCV equivalence
-    histos = (pdf * voxels_per_tile).view(-1, n_bins)
+    # handled in (exact) pixel counts for OpenCV equivalence
+    histos = pdf.view(-1, n_bins)
     if clip_limit > 0:
         # calc limit
         limit = max(clip_limit * voxels_per_tile // n_bins, 1)
-- 
2.43.0


From ea958804d34cd5b61e4e75e15bd3210867276ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 043/153] fix: unset spatial coordinates are reported as such

get_spatial_coords raised AttributeError instead of the intended ValueError.
---
 ebsdtorch/ebsd/experiment_pats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0d0e4ae..619d3b7 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -54,6 +54,7 @@ class ExperimentPatterns(Module):
 
         self.phases = None
         self.orientations = None
+        self.spatial_coords = None
         self.inv_f_matrix = None
 
     def set_spatial_coords(
-- 
2.43.0


From 2379d8a896c81b91493e07a4dd8502d147859298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 044/153] fix: pattern sets accept cropped and transposed scans

A non-contiguous pattern tensor such as a crop of a scan was rejected by view.
---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 619d3b7..b9b9ba2 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -46,7 +46,7 @@ class ExperimentPatterns(Module):
 
         self.pattern_shape = patterns.shape[-2:]
         self.spatial_shape = patterns.shape[:-2] if len(patterns.shape) > 2 else (1, 1)
-        self.patterns = patterns.view(-1, *patterns.shape[-2:])
+        self.patterns = patterns.reshape(-1, *patterns.shape[-2:])
 
         # set number of patterns and pixels
         self.n_patterns = self.patterns.shape[0]
-- 
2.43.0


From c9d36bbb8b2a96c8486136ae4b41ae2f9baaa48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 045/153] fix: one deformation gradient may be given for all
 patterns

The documented (1, 3, 3) and (1, 9) shapes were rejected.
---
 ebsdtorch/ebsd/experiment_pats.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index b9b9ba2..87c2e3b 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -189,7 +189,7 @@ class ExperimentPatterns(Module):
             f_matrix[:, 8] = 1.0
             f_matrix = f_matrix.reshape(self.n_patterns, 3, 3)
         else:
-            if f_matrix.shape[0] != self.n_patterns:
+            if f_matrix.shape[0] not in (1, self.n_patterns):
                 raise ValueError(
                     f"Deformation gradients must have the same number of patterns as the ExperimentPatterns object. "
                     + f"Got {f_matrix.shape[0]} gradients and {self.n_patterns} patterns."
@@ -200,7 +200,10 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Deformation gradients must be 3x3 matrices. Got {f_matrix.shape[-2:]} components."
                 )
-        self.inv_f_matrix = f_matrix.view(self.n_patterns, 3, 3)
+            f_matrix = f_matrix.reshape(-1, 3, 3)
+            if f_matrix.shape[0] != self.n_patterns:
+                f_matrix = f_matrix.repeat(self.n_patterns, 1, 1)
+        self.inv_f_matrix = f_matrix
 
     def get_inv_f_matrix(
         self,
-- 
2.43.0


From 211fbb49b30311c020f5c495ad22f1c7b14ff9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 046/153] fix: indices of a phase are a vector even for a
 single pattern

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 87c2e3b..bc82a1b 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -364,7 +364,7 @@ class ExperimentPatterns(Module):
                 "Phases must be indexed before retrieving indices per phase."
             )
         return [
-            torch.nonzero(self.phases == i, as_tuple=False).squeeze()
+            torch.nonzero(self.phases == i, as_tuple=False).squeeze(1)
             for i in range(self.phases.max().item() + 1)
         ]
 
-- 
2.43.0


From d6e4273d2312ec0c4a0629a1e955348e95c005bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 047/153] fix: indexing results of several phases can be
 combined

Combining more than one phase raised, and a single phase had to have the id 0.
---
 ebsdtorch/ebsd/experiment_pats.py | 70 +++++++++----------------------
 1 file changed, 20 insertions(+), 50 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index bc82a1b..270d70e 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -400,56 +400,26 @@ class ExperimentPatterns(Module):
         if not hasattr(self, "raw_indexing_results"):
             raise ValueError("Raw indexing results must be set before combining.")
 
-        if len(self.raw_indexing_results) > 1:
-            # loop over the phases, concatenate the metrics and only store the phase
-            # and quaternion with the best metric
-            if higher_is_better:
-                # fill metric with -inf
-                best_metrics = torch.full(
+        # the top match of each pattern is stored in the first column
+        best_phases, best_metrics, orientations = None, None, None
+        for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
+            if best_metrics is None:
+                best_phases = torch.full(
                     (self.n_patterns,),
-                    float("-inf"),
-                    device=self.patterns.device,
+                    fill_value=phase_id,
+                    dtype=torch.uint8,
+                    device=metrics.device,
                 )
+                best_metrics = metrics[:, 0].clone()
+                orientations = quaternions[:, 0].clone()
+                continue
+            if higher_is_better:
+                mask = metrics[:, 0] > best_metrics
             else:
-                # fill metric with +inf
-                best_metrics = torch.full(
-                    (self.n_patterns,),
-                    float("inf"),
-                    device=self.patterns.device,
-                )
-
-            # make a phase_id tensor
-            phase_ids = torch.full(
-                self.n_patterns,
-                fill_value=-1,
-                dtype=torch.uint8,
-                device=self.patterns.device,
-            )
-
-            # make a quaternion tensor
-            orientations = torch.zeros(
-                self.n_patterns,
-                4,
-                device=self.patterns.device,
-            )
-
-            for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
-                if higher_is_better:
-                    mask = metrics > best_metrics
-                else:
-                    mask = metrics < best_metrics
-                best_metrics[mask] = metrics[mask]
-                phase_ids[mask] = phase_id
-                orientations[mask] = quaternions[mask]
-            self.phases = phase_ids
-            self.orientations = orientations
-            self.best_metrics = best_metrics
-        else:
-            self.phases = torch.full(
-                (self.n_patterns,),
-                fill_value=list(self.raw_indexing_results.keys())[0],
-                dtype=torch.uint8,
-                device=self.patterns.device,
-            )
-            self.orientations = self.raw_indexing_results[0][0][:, 0]
-            self.best_metrics = self.raw_indexing_results[0][1][:, 0]
+                mask = metrics[:, 0] < best_metrics
+            best_phases[mask] = phase_id
+            best_metrics[mask] = metrics[mask, 0]
+            orientations[mask] = quaternions[mask, 0]
+        self.phases = best_phases
+        self.orientations = orientations
+        self.best_metrics = best_metrics
-- 
2.43.0


From eda3e06f5dde860f10b2126f0016abb700045845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 048/153] fix: partial record updates do not write into the
 caller's tensors

The first full assignment stored the caller's tensor itself, which later indexed
assignments then modified.
---
 ebsdtorch/ebsd/experiment_pats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 270d70e..82f79ed 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -75,7 +75,7 @@ class ExperimentPatterns(Module):
                     f"Spatial coordinates must have the same number of patterns as the ExperimentPatterns object. "
                     + f"Got {spatial_coords.shape[0]} spatial coordinates and {self.n_patterns} patterns."
                 )
-            self.spatial_coords = spatial_coords
+            self.spatial_coords = spatial_coords.clone()
         else:
             if spatial_coords.shape[0] != indices.shape[0]:
                 raise ValueError(
@@ -132,7 +132,7 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Orientations must be quaternions (w, x, y, z). Got {orientations.shape[1]}."
                 )
-            self.orientations = orientations
+            self.orientations = orientations.clone()
         else:
             # check dim of indices
             if len(indices.shape) != 1:
-- 
2.43.0


From 33bd4316eaefedc00102a108bb3aa9c6bd97da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 049/153] fix: NLPAR noise estimate uses the eight adjacent
 scan points

Sorting offsets by city-block distance ties the diagonal neighbours with points two
steps away.
---
 ebsdtorch/preprocessing/nlpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 8465832..5ff33e5 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -93,7 +93,7 @@ def nlpar(
     # find indices of 8 nearest neighbors
     # closest point is self so we skip it
     offset_coords = offset_coords[
-        torch.argsort(torch.sum(torch.abs(offset_coords), dim=-1))
+        torch.argsort(torch.sum(offset_coords**2, dim=-1))
     ]
 
     starts_i = k_rad + offset_coords[:, 0]
-- 
2.43.0


From 03631314ebf9414a948733298ceaccb60d762cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 050/153] fix: NLPAR ignores the zero padding around the scan

Padded zeros took part in the noise estimate of border patterns and in the fit of the
weight coefficient.
---
 ebsdtorch/preprocessing/nlpar.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 5ff33e5..14d85c9 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -115,9 +115,13 @@ def nlpar(
             starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]
         ]
 
-    # estimate the noise level for the entire scan
+    # estimate the noise level for the entire scan from the neighbors inside the scan
     sigma_hat = torch.sqrt(
-        torch.min(dists[:, :, 1:9], dim=-1).values / (2 * n_pixels_per_pat)
+        torch.min(
+            dists[:, :, 1:9].masked_fill(out_bounds_mask_all[:, :, 1:9], 1e30),
+            dim=-1,
+        ).values
+        / (2 * n_pixels_per_pat)
     )
     # pad sigma_hat so we can use offsets
     sigma_hat_padded = torch.nn.functional.pad(
@@ -144,7 +148,7 @@ def nlpar(
     # x = x - f / f'
     # The current implementation uses Nelder-Mead optimization to find the coefficient
     guess_coeff = 1.0
-    nn_weights = weights[:, :, :9]
+    nn_weights = weights[:, :, :9].masked_fill(out_bounds_mask_all[:, :, :9], -1e30)
     for _ in range(10):
         # notice that guess_coeff_sq is only calculated at the beginning
         guess_coeff_sq = guess_coeff**2
-- 
2.43.0


From cc7f593ae030b30b2c5fc4e950a2949bf9478c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 051/153] fix: NLPAR keeps identical patterns instead of
 returning NaN

---
 ebsdtorch/preprocessing/nlpar.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 14d85c9..74ef897 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -133,9 +133,11 @@ def nlpar(
     # iterate and normalize the squared differences
     for i in range(n_pats_per_kernel):
         sigma_other = sigma_hat_padded[starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]]
-        dists[:, :, i] = (
-            dists[:, :, i] - n_pixels_per_pat * (sigma_hat**2 + sigma_other**2)
-        ) / (2**0.5 * n_pixels_per_pat**0.5 * (sigma_hat**2 + sigma_other**2))
+        # identical patterns have no noise and zero distance
+        sigma_sq_sum = (sigma_hat**2 + sigma_other**2).clamp_min(1e-20)
+        dists[:, :, i] = (dists[:, :, i] - n_pixels_per_pat * sigma_sq_sum) / (
+            2**0.5 * n_pixels_per_pat**0.5 * sigma_sq_sum
+        )
 
     # compute the weights as the clamped negative distances
     weights = -dists.clamp_min_(0.0)
@@ -171,6 +173,9 @@ def nlpar(
                 * torch.sum(torch.exp(nn_weights / guess_coeff_sq), dim=-1) ** 2
             )
         )
+        # the coefficient has no influence if all distances are zero or unbounded
+        if grad == 0.0:
+            break
         guess_coeff -= obj / grad
         if torch.abs(obj) < coeff_fit_tol:
             break
-- 
2.43.0


From c73cbe508c02f814653371cb3c1f450dcab9c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 052/153] fix: NLPAR weight coefficient is fitted by bisection

Newton's method from a fixed start diverged for large coefficients and for noisy
scans, so the centre weight missed the requested value.
---
 ebsdtorch/preprocessing/nlpar.py | 50 +++++++++++---------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 74ef897..efe1de5 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -32,7 +32,7 @@ def nlpar(
         data (Tensor): The EBSD pattern data tensor.
         k_rad (int): The radius of the kernel.
         coeff (float): higher -> original pattern has more weight
-        coeff_fit_tol (float): tolerance (Newton's method) to hit coeff
+        coeff_fit_tol (float): tolerance to hit coeff
         center_logit_bias (float): higher -> constant bias towards original pattern
 
     Returns:
@@ -144,44 +144,28 @@ def nlpar(
 
     # need average first bin in softmax normed pdf to equal coeff specified
     # by definition only applicable to the 3x3 NN kernel even when doing a larger kernel
-    # f  = exp(w[0]/x^2) / sum(exp(w[i]/x^2)) - coeff
-    # f' = -2 * exp(w[0]/x^2) * (sum(w[0] * exp(w[i]/x^2)) - sum(w[i] * exp(w[i]/x^2))) / x^3 * sum(exp(w[i]/x^2))^2
-    # Newton's method:
-    # x = x - f / f'
-    # The current implementation uses Nelder-Mead optimization to find the coefficient
-    guess_coeff = 1.0
-    nn_weights = weights[:, :, :9].masked_fill(out_bounds_mask_all[:, :, :9], -1e30)
-    for _ in range(10):
-        # notice that guess_coeff_sq is only calculated at the beginning
-        guess_coeff_sq = guess_coeff**2
+    # the average falls monotonically with the coefficient so bisect on a log scale
+    # (an unattainable coeff gives the coefficient that comes closest to it)
+    coeff_sq_lower, coeff_sq_upper = 1e-3, 1e30
+    guess_coeff_sq = 1.0
+    nn_weights = weights[:, :, :9].masked_fill(
+        out_bounds_mask_all[:, :, :9], -torch.inf
+    )
+    for _ in range(60):
         obj = (
-            torch.mean(torch.softmax(nn_weights / guess_coeff_sq, dim=-1)[:, :, 0])
+            float(torch.mean(torch.softmax(nn_weights / guess_coeff_sq, dim=-1)[:, :, 0]))
             - coeff
         )
-        grad = torch.mean(
-            -2
-            * torch.exp(nn_weights[:, :, 0] / guess_coeff_sq)
-            * (
-                torch.sum(
-                    nn_weights[:, :, [0]] * torch.exp(nn_weights / guess_coeff_sq),
-                    dim=-1,
-                )
-                - torch.sum(nn_weights * torch.exp(nn_weights / guess_coeff_sq), dim=-1)
-            )
-            / (
-                guess_coeff**3
-                * torch.sum(torch.exp(nn_weights / guess_coeff_sq), dim=-1) ** 2
-            )
-        )
-        # the coefficient has no influence if all distances are zero or unbounded
-        if grad == 0.0:
-            break
-        guess_coeff -= obj / grad
-        if torch.abs(obj) < coeff_fit_tol:
+        if abs(obj) < coeff_fit_tol:
             break
+        if obj > 0:
+            coeff_sq_lower = guess_coeff_sq
+        else:
+            coeff_sq_upper = guess_coeff_sq
+        guess_coeff_sq = (coeff_sq_lower * coeff_sq_upper) ** 0.5
 
     # apply the computed coefficient to the weights
-    weights /= guess_coeff**2
+    weights /= guess_coeff_sq
 
     # bias the original pattern
     if center_logit_bias > 0:
-- 
2.43.0


From b655ed24d16a40b8c5a423fc78dcff2eb3ca9304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 053/153] fix: quantized nearest neighbours are only used for
 the angular metric

The quantized path computes dot products whatever the metric, so euclidean and
manhattan searches returned the rows with the smallest dot products.
---
 ebsdtorch/utils/knn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a630995..8e269f1 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -134,6 +134,7 @@ class ChunkedKNN:
 
         if (
             quantized_via_ao
+            and distance_metric == "angular"
             and match_dtype != torch.float32
             and match_device.type == "cpu"
         ):
@@ -143,7 +144,8 @@ class ChunkedKNN:
             match_dtype = torch.float32
 
         self.match_dtype = match_dtype
-        self.quantized = quantized_via_ao
+        # the quantized arithmetic is a matrix product: only the angular metric can use it
+        self.quantized = quantized_via_ao and distance_metric == "angular"
 
         self.big_better = self.distance_metric == "angular"
         ind_dtype = torch.int64 if self.data_size < 2**31 else torch.int32
-- 
2.43.0


From aa3735b7e62a06e72d6292d3e9409d5ee06869c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 054/153] fix: more neighbours than the rows of a data chunk
 can be requested

A (ragged last) chunk shorter than k made torch.topk raise.
---
 ebsdtorch/utils/knn.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index 8e269f1..55e2c22 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -172,8 +172,9 @@ class ChunkedKNN:
         data_chunk = data_chunk.to(self.match_dtype).to(self.match_device)
 
         # it is easier to track the current end index than the start index
-        self.curr_end += data_chunk.shape[0]
-        self.curr_start = self.curr_end - data_chunk.shape[0]
+        self.chunk_size = data_chunk.shape[0]
+        self.curr_end += self.chunk_size
+        self.curr_start = self.curr_end - self.chunk_size
 
         # Quantize the data if needed
         if self.quantized and self.match_device.type == "cpu":
@@ -197,11 +198,14 @@ class ChunkedKNN:
 
         if self.quantized and self.match_device.type == "cpu":
             knn_dists_chunk, knn_inds_chunk = topk_quantized_data(
-                query, self.prepared_data, self.topk
+                query, self.prepared_data, min(self.topk, self.chunk_size)
             )
         else:
             knn_dists_chunk, knn_inds_chunk = knn_batch(
-                self.prepared_data, query, self.topk, self.distance_metric
+                self.prepared_data,
+                query,
+                min(self.topk, self.chunk_size),
+                self.distance_metric,
             )
 
         # chunk indices -> global indices
@@ -237,11 +241,14 @@ class ChunkedKNN:
 
         if self.quantized and self.match_device.type == "cpu":
             knn_distances_chunk, knn_indices_chunk = topk_quantized_data(
-                query_chunk, self.prepared_data, self.topk
+                query_chunk, self.prepared_data, min(self.topk, self.chunk_size)
             )
         else:
             knn_distances_chunk, knn_indices_chunk = knn_batch(
-                self.prepared_data, query_chunk, self.topk, self.distance_metric
+                self.prepared_data,
+                query_chunk,
+                min(self.topk, self.chunk_size),
+                self.distance_metric,
             )
 
         knn_indices_chunk += self.curr_start
-- 
2.43.0


From de02fdc68d58f6eb6622dab7e09890907e47d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 055/153] fix: neighbour indices are 64-bit for large data sets

The integer type was chosen the wrong way round: more than 2**31 rows were stored
as 32-bit indices.
---
 ebsdtorch/utils/knn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index 55e2c22..4d585ae 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -148,9 +148,8 @@ class ChunkedKNN:
         self.quantized = quantized_via_ao and distance_metric == "angular"
 
         self.big_better = self.distance_metric == "angular"
-        ind_dtype = torch.int64 if self.data_size < 2**31 else torch.int32
-        self.knn_indices = torch.empty(
-            (self.query_size, self.topk), device=self.match_device, dtype=ind_dtype
+        self.knn_indices = torch.zeros(
+            (self.query_size, self.topk), device=self.match_device, dtype=torch.int64
         )
         self.knn_distances = torch.full(
             (self.query_size, self.topk),
-- 
2.43.0


From e544149bc52cfaad5415a738fc2b99a13561b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 056/153] fix: streaming covariance of data with a large offset

The first batch was centred on zero on one side, so that rounding of its mean was
multiplied by the offset. An empty batch turned the state into NaN.
---
 ebsdtorch/utils/pca_covmat.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/pca_covmat.py b/ebsdtorch/utils/pca_covmat.py
index a79f621..0d14b94 100644
--- a/ebsdtorch/utils/pca_covmat.py
+++ b/ebsdtorch/utils/pca_covmat.py
@@ -70,10 +70,17 @@ def update_covmat(
     Returns:
         None
     """
-    # compute the batch mean
     N = data_new.shape[0]
+    if N == 0:
+        return
+
+    # compute the batch mean
     batch_mean = torch.mean(data_new, dim=0, keepdim=True)
 
+    # start from the mean of the first batch instead of zero to avoid cancellation
+    if int(current_obs) == 0:
+        current_mean.copy_(batch_mean)
+
     # update the global mean
     new_mean = (current_mean * current_obs + batch_mean * N) / (current_obs + N)
 
-- 
2.43.0


From ea5bea4d87c67a95b6d9b7dfc7d4cc8400ceebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 057/153] fix: Oja++ components stay orthonormal when a column
 is initialized

A single component divided by zero.
---
 ebsdtorch/utils/pca_online.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/pca_online.py b/ebsdtorch/utils/pca_online.py
index 06bf3ed..d04c1db 100644
--- a/ebsdtorch/utils/pca_online.py
+++ b/ebsdtorch/utils/pca_online.py
@@ -114,10 +114,11 @@ class OjaPCA(nn.Module):
 
         # For Oja++, gradually initialize columns
         if self.use_oja_plus and self.next_col_to_init < self.n_components:
-            if self.step % (self.n_components // 2) == 0:
+            if self.step % max(1, self.n_components // 2) == 0:
                 self.Q[:, self.next_col_to_init] = torch.randn(
                     self.n_features, dtype=self.Q.dtype
                 )
+                self.Q.copy_(torch.linalg.qr(self.Q)[0])
                 self.initialized_cols[self.next_col_to_init] = True
                 self.next_col_to_init.add_(1)
 
-- 
2.43.0


From 9cda0761abff192e0c7d4f795023df00c61c8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 058/153] fix: importing the indexing module does not run its
 demonstration

The module could not be imported without kikuchipy and orix, downloaded data and
indexed a scan on import.
---
 ebsdtorch/ebsd/indexing.py | 200 ++++++++++++++++++-------------------
 1 file changed, 100 insertions(+), 100 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5d7d02e..35f21ca 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -476,103 +476,103 @@ def pca_dictionary_index_orientations(
     )
 
 
-import torch
-import kikuchipy as kp
-import numpy as np
-
-device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
-
-geom = EBSDGeometry(
-    detector_shape=(60, 60),
-    proj_center=(0.4221, 0.2179, 0.4954),
-).to(device)
-
-# create the master pattern
-kp_mp = kp.data.nickel_ebsd_master_pattern_small(
-    projection="lambert", hemisphere="both"
-)
-mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
-mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
-master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
-mp = MasterPattern(
-    master_pattern,
-    laue_group=11,
-).to(device)
-mp.normalize(norm_type="minmax")
-# mp.apply_clahe()
-
-# create the experiment patterns object
-exp_pats = (
-    torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
-    .to(device)
-    .to(torch.float32)
-)
-
-exp_pats = ExperimentPatterns(
-    exp_pats,
-)
-
-# subtract background and do clahe
-exp_pats.standard_clean()
-# exp_pats.do_nlpar()
-
-# get radial mask
-from ebsdtorch.preprocessing.radial_mask import get_radial_mask
-
-mask = get_radial_mask(
-    shape=(60, 60),
-).to(device)
-# mask = None
-
-# # index the orientations
-# dictionary_index_orientations(
-#     mp,
-#     geom,
-#     exp_pats,
-#     dictionary_resolution_degrees=0.5,
-#     dictionary_chunk_size=4096,
-#     signal_mask=mask,
-#     virtual_binning=1,
-#     experiment_chunk_size=4096,
-#     match_dtype=torch.float16,
-# )
-
-# index the orientations
-pca_dictionary_index_orientations(
-    mp,
-    geom,
-    exp_pats,
-    dictionary_resolution_learn_deg=0.5,
-    dictionary_resolution_index_deg=0.2,
-    dictionary_chunk_size=4096,
-    signal_mask=mask,
-    virtual_binning=1,
-    experiment_chunk_size=4096,
-    match_dtype=torch.float16,
-    n_pca_components=500,
-)
-
-orientations = exp_pats.get_orientations().cpu().numpy()
-
-# plot the indexed orientations
-import numpy as np
-from orix import plot
-from orix.quaternion import Orientation
-from orix.vector import Vector3d
-from plotly.express import imshow
-
-# get the orientation colors
-pg_m3m = kp_mp.phase.point_group.laue
-ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
-
-# save rgb image
-orientations = Orientation(orientations)
-rgb = ckey_m3m.orientation2color(orientations)
-rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
-
-# plot the indexed orientations
-fig = imshow(rgb_byte)
-# set title
-fig.update_layout(title_text=f"Scan {1}")
-
-fig.show()
+if __name__ == "__main__":
+    import kikuchipy as kp
+    import numpy as np
+
+    device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
+
+    geom = EBSDGeometry(
+        detector_shape=(60, 60),
+        proj_center=(0.4221, 0.2179, 0.4954),
+    ).to(device)
+
+    # create the master pattern
+    kp_mp = kp.data.nickel_ebsd_master_pattern_small(
+        projection="lambert", hemisphere="both"
+    )
+    mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
+    mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
+    master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
+    mp = MasterPattern(
+        master_pattern,
+        laue_group=11,
+    ).to(device)
+    mp.normalize(norm_type="minmax")
+    # mp.apply_clahe()
+
+    # create the experiment patterns object
+    exp_pats = (
+        torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
+        .to(device)
+        .to(torch.float32)
+    )
+
+    exp_pats = ExperimentPatterns(
+        exp_pats,
+    )
+
+    # subtract background and do clahe
+    exp_pats.standard_clean()
+    # exp_pats.do_nlpar()
+
+    # get radial mask
+    from ebsdtorch.preprocessing.radial_mask import get_radial_mask
+
+    mask = get_radial_mask(
+        shape=(60, 60),
+    ).to(device)
+    # mask = None
+
+    # # index the orientations
+    # dictionary_index_orientations(
+    #     mp,
+    #     geom,
+    #     exp_pats,
+    #     dictionary_resolution_degrees=0.5,
+    #     dictionary_chunk_size=4096,
+    #     signal_mask=mask,
+    #     virtual_binning=1,
+    #     experiment_chunk_size=4096,
+    #     match_dtype=torch.float16,
+    # )
+
+    # index the orientations
+    pca_dictionary_index_orientations(
+        mp,
+        geom,
+        exp_pats,
+        dictionary_resolution_learn_deg=0.5,
+        dictionary_resolution_index_deg=0.2,
+        dictionary_chunk_size=4096,
+        signal_mask=mask,
+        virtual_binning=1,
+        experiment_chunk_size=4096,
+        match_dtype=torch.float16,
+        n_pca_components=500,
+    )
+
+    orientations = exp_pats.get_orientations().cpu().numpy()
+
+    # plot the indexed orientations
+    import numpy as np
+    from orix import plot
+    from orix.quaternion import Orientation
+    from orix.vector import Vector3d
+    from plotly.express import imshow
+
+    # get the orientation colors
+    pg_m3m = kp_mp.phase.point_group.laue
+    ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
+
+    # save rgb image
+    orientations = Orientation(orientations)
+    rgb = ckey_m3m.orientation2color(orientations)
+    rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
+
+    # plot the indexed orientations
+    fig = imshow(rgb_byte)
+    # set title
+    fig.update_layout(title_text=f"Scan {1}")
+
+    fig.show()
-- 
2.43.0


From a17decc33f9f2d8c25919f0afcd4f15b117d15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 059/153] fix: indexing again does not mix in phases of an
 earlier run

---
 ebsdtorch/ebsd/indexing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 35f21ca..a4f628e 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -59,6 +59,7 @@ def dictionary_index_orientations(
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
+    experiment_patterns.raw_indexing_results = {}
     for i, mp in enumerate(master_patterns):
         # get an orientation dictionary
         ori_tensor = sample_ori_fz_laue_angle(
@@ -261,6 +262,7 @@ def pca_dictionary_index_orientations(
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
+    experiment_patterns.raw_indexing_results = {}
     for i, mp in enumerate(master_patterns):
         # get an orientation dictionary
         ori_tensor = sample_ori_fz_laue_angle(
-- 
2.43.0


From 06273cb5ef1944fb206836c2fadcaf8eef0bf295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 060/153] fix: subtract_exp_pat_mean does not depend on the
 chunk size

---
 ebsdtorch/ebsd/indexing.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index a4f628e..8f828a3 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -183,9 +183,10 @@ def dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # query the KNN object
                     knn.query_chunk(
@@ -446,9 +447,10 @@ def pca_dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
-- 
2.43.0


From 406b88b6fcc95f5cf68ec78892c51febdc0591d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 061/153] fix: PCA indexing keeps the requested leading
 components

The slice was empty below 300 components and dropped the leading ones above.
---
 ebsdtorch/ebsd/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 8f828a3..267dec9 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -355,7 +355,7 @@ def pca_dictionary_index_orientations(
 
         # trim the eigenvectors to the number of components
         # they are returned in ascending order of eigenvalue
-        pca_matrix = eigenvectors[:, -n_pca_components : (-n_pca_components + 300)]
+        pca_matrix = eigenvectors[:, -n_pca_components:]
 
         # calc dictionary (if the learning and indexing resolutions are different)
         if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:
-- 
2.43.0


From fc6671c3310e6711403c2f43163a38fffb0c32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 062/153] fix: PCA indexing bins the experimental patterns

The whole-scan branch used unbinned patterns and the covariance had the size of
unbinned patterns.
---
 ebsdtorch/ebsd/indexing.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 267dec9..d4cd570 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -287,7 +287,9 @@ def pca_dictionary_index_orientations(
         if signal_mask is not None:
             n_pixels = signal_mask.sum().item()
         else:
-            n_pixels = experiment_patterns.n_pixels
+            n_pixels = (experiment_patterns.pattern_shape[0] // virtual_binning) * (
+                experiment_patterns.pattern_shape[1] // virtual_binning
+            )
 
         # make an object to do the PCA
         pcacovmat = OnlineCovMatrix(
@@ -408,9 +410,10 @@ def pca_dictionary_index_orientations(
 
             # # retrieve and project the experiment patterns
             if experiment_chunk_size > experiment_patterns.n_patterns:
-                exp_pats = experiment_patterns.patterns.view(
-                    experiment_patterns.n_patterns, -1
-                )
+                exp_pats = experiment_patterns.get_patterns(
+                    torch.arange(experiment_patterns.n_patterns),
+                    binning=virtual_binning,
+                ).view(experiment_patterns.n_patterns, -1)
                 # query all the experiment patterns
                 # first apply the signal mask if provided
                 if signal_mask is not None:
-- 
2.43.0


From f59547fb22bec79304d985225fbe6726e7bb9eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 063/153] fix: dictionary indexing compares patterns of unit
 norm

Mean-free patterns were compared by their bare dot product, so that dictionary
orientations with a stronger contrast won over the true orientation of noise-free
patterns.
---
 ebsdtorch/ebsd/indexing.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index d4cd570..11cd289 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -143,6 +143,11 @@ def dictionary_index_orientations(
                 keepdim=True,
             )
 
+            # unit norm so that the strength of the contrast does not affect the match
+            simulated_patterns = torch.nn.functional.normalize(
+                simulated_patterns, dim=-1
+            )
+
             # set the data for the KNN object
             knn.set_data_chunk(simulated_patterns)
 
@@ -160,6 +165,7 @@ def dictionary_index_orientations(
                 # subtract the mean from each pattern and query the KNN object
                 if subtract_exp_pat_mean:
                     exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
+                exp_pats = torch.nn.functional.normalize(exp_pats, dim=-1)
                 knn.query_all(exp_pats)
 
                 # synchronize the device for the progress bar
@@ -187,6 +193,7 @@ def dictionary_index_orientations(
                         query_chunk = query_chunk - torch.mean(
                             query_chunk, dim=-1, keepdim=True
                         )
+                    query_chunk = torch.nn.functional.normalize(query_chunk, dim=-1)
 
                     # query the KNN object
                     knn.query_chunk(
@@ -402,6 +409,11 @@ def pca_dictionary_index_orientations(
                 keepdim=True,
             )
 
+            # unit norm so that the strength of the contrast does not affect the match
+            simulated_patterns = torch.nn.functional.normalize(
+                simulated_patterns, dim=-1
+            )
+
             # project the simulated patterns onto the PCA components
             simulated_patterns_pca = torch.matmul(simulated_patterns, pca_matrix)
 
@@ -422,6 +434,7 @@ def pca_dictionary_index_orientations(
                 # subtract the mean from each pattern and query the KNN object
                 if subtract_exp_pat_mean:
                     exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
+                exp_pats = torch.nn.functional.normalize(exp_pats, dim=-1)
 
                 # PCA projection
                 exp_pats = torch.matmul(exp_pats, pca_matrix)
@@ -454,6 +467,7 @@ def pca_dictionary_index_orientations(
                         query_chunk = query_chunk - torch.mean(
                             query_chunk, dim=-1, keepdim=True
                         )
+                    query_chunk = torch.nn.functional.normalize(query_chunk, dim=-1)
 
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
-- 
2.43.0


From ab696445b8711e59255da52fc9d159c497ecabb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 064/153] fix: local orientation grid contains the identity
 exactly

linspace rounds the central value for many edges, so the one and two axis grids lost
most of their points, and a single-point grid lay at the corner.
---
 ebsdtorch/ebsd/refining.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9a4cf73..f7194e5 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -44,10 +44,9 @@ def get_local_orientation_grid(
     semi_edge_cubochoric = semi_edge_in_degrees * torch.pi ** (2 / 3) / 360.0
 
     # make a meshgrid of cubochoric coordinates
-    cu = torch.linspace(
-        -semi_edge_cubochoric,
-        semi_edge_cubochoric,
-        2 * kernel_radius_in_steps + 1,
+    # (from integer steps so that the zeros are exact, linspace rounds them)
+    cu = torch.arange(-kernel_radius_in_steps, kernel_radius_in_steps + 1) * (
+        semi_edge_cubochoric / max(kernel_radius_in_steps, 1)
     )
 
     # get cartesian product meshgrid
-- 
2.43.0


From cba9bca92873bfb4194905a5e117c7f868f91b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 065/153] fix: refinement shifts the detector against the scan
 position

The geometry and the indexing subtract the scan position of the source.
---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index f7194e5..49d3cf8 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -115,7 +115,7 @@ def orientation_grid_refinement(
 
     if not average_pattern_center:
         # broadcast subtract the sample scan coordinates from the detector coords
-        detector_coords = detector_coords[None, :, :] + torch.cat(
+        detector_coords = detector_coords[None, :, :] - torch.cat(
             [
                 experiment_patterns.spatial_coords[:, None, :],
                 torch.zeros_like(experiment_patterns.spatial_coords[:, None, [-1]]),
-- 
2.43.0


From f6212371648edcb5e16c07c0bb673ef5bc9d2316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 066/153] fix: refinement looks up the master pattern on the
 same grid as indexing

With aligned corners the simulated patterns are scaled against those that were
indexed, and the two hemispheres are mixed along their common edge.
---
 ebsdtorch/ebsd/refining.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 49d3cf8..ba02a31 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -202,7 +202,7 @@ def orientation_grid_refinement(
                 sim_pats = mp.interpolate(
                     detector_coords_rotated,
                     mode="bilinear",
-                    align_corners=True,
+                    align_corners=False,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
                 ).squeeze()
@@ -337,7 +337,7 @@ def orientation_grad_refinement(
                 sim_pats = mp.interpolate(
                     detector_coords_rotated,
                     mode="bicubic",
-                    align_corners=True,
+                    align_corners=False,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
                 ).squeeze()
-- 
2.43.0


From 867c76c6ddc9666c32108869e253fd54f1d3f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 067/153] fix: refinement of a single pattern or with a single
 grid point

squeeze dropped the batch dimensions of length one.
---
 ebsdtorch/ebsd/refining.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index ba02a31..5e07270 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -205,7 +205,7 @@ def orientation_grid_refinement(
                     align_corners=False,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
@@ -340,7 +340,7 @@ def orientation_grad_refinement(
                     align_corners=False,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
-- 
2.43.0


From afd224623c0e71595bcbcc812fc9a86b0cde53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 068/153] fix: grid refinement maximizes the correlation

The simulated patterns were not of unit norm, so grid points with a stronger contrast
were preferred to better matching ones.
---
 ebsdtorch/ebsd/refining.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 5e07270..dea6462 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -169,6 +169,7 @@ def orientation_grid_refinement(
 
             # subtract the mean from the patterns
             exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
+            exp_pats = torch.nn.functional.normalize(exp_pats, dim=-1)
 
             # get the current orientations
             # shape (N_EXP_PATS, 4)
@@ -210,6 +211,9 @@ def orientation_grid_refinement(
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
 
+                # unit norm so that the strength of the contrast does not matter
+                sim_pats = torch.nn.functional.normalize(sim_pats, dim=-1)
+
                 # use einsum to do the dot product
                 # (N_EXP_PATS, N_DETECTOR_PIXELS) & (N_EXP_PATS, N_SIM_PATS, N_DETECTOR_PIXELS)
                 dot_products = torch.einsum(
-- 
2.43.0


From 9c8f06cf543111574baafe96086ec170bb6a532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 069/153] fix: gradient refinement keeps orientations that
 improve

The correlation was compared with the negated initial one, so that no improved
orientation of a positively correlated pattern was ever stored, and it was taken
before the last step.
---
 ebsdtorch/ebsd/refining.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index dea6462..b1e55ab 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -325,15 +325,10 @@ def orientation_grad_refinement(
             # make a differentiable tensor to update the orientations
             qu_current = qu_current.clone().detach().requires_grad_(True)
 
-            # pass off to the optimizer
-            optimizer = torch.optim.Adam([qu_current], lr=learning_rate)
-
-            initial_dots = None
-
-            for step in range(n_iter):
+            def correlate(qu: Tensor) -> Tensor:
                 # apply the state of the lattice to the detector coordinates
                 detector_coords_rotated = qu_apply(
-                    qu_current[:, None, :], detector_coords[None, :, :]
+                    qu[:, None, :], detector_coords[None, :, :]
                 )
 
                 # interpolate the master pattern
@@ -354,12 +349,20 @@ def orientation_grad_refinement(
 
                 # use einsum to do the dot product
                 # (N_PATS, N_PIX) and (N_PATS, N_PIX) to (N_PATS,)
-                dot_products = torch.einsum(
+                return torch.einsum(
                     "ij,ij->i", exp_pats.to(match_dtype), sim_pats.to(match_dtype)
                 )
 
+            # pass off to the optimizer
+            optimizer = torch.optim.Adam([qu_current], lr=learning_rate)
+
+            initial_dots = None
+
+            for step in range(n_iter):
+                dot_products = correlate(qu_current)
+
                 if step == 0:
-                    initial_dots = -dot_products
+                    initial_dots = dot_products.detach()
 
                 # backpropagate the dot products
                 loss = -torch.mean(dot_products)
@@ -383,8 +386,11 @@ def orientation_grad_refinement(
 
             # update the experiment patterns
             # experiment_patterns.set_orientations(qu_current.detach(), indices_batch)
-            # only update if the final loss is better than the initial loss
-            updates = dot_products < initial_dots
+            # only update if the final correlation is better than the initial one
+            if initial_dots is None:
+                continue
+            with torch.no_grad():
+                updates = correlate(qu_current) > initial_dots
             experiment_patterns.set_orientations(
                 qu_current[updates].detach(),
                 indices_batch[updates],
-- 
2.43.0


From 87f8e4fb170fd27ac1c208db9582296efb1bb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 070/153] fix: grid refinement with half precision matching

Storing the best half precision dot products in the float table raised, also for the
default match_dtype.
---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index b1e55ab..26fcf3b 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -227,7 +227,7 @@ def orientation_grid_refinement(
                 best_dots, best_indices = torch.max(dot_products, dim=-1)
 
                 # update the dots
-                dots[indices_batch, j] = best_dots
+                dots[indices_batch, j] = best_dots.to(dots.dtype)
 
                 # update center of the grid
                 qu_current = qu_augmented[
-- 
2.43.0


From 09c22d850cf4674c766b9ffbe502a91ff0c33037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 071/153] fix: refinement of a scan in which a phase has no
 patterns

---
 ebsdtorch/ebsd/refining.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 26fcf3b..184b4e1 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -154,6 +154,10 @@ def orientation_grid_refinement(
         )
 
         for indices_batch in pb:
+            # a phase may not have any patterns
+            if len(indices_batch) == 0:
+                continue
+
             # get the local orientation grid
             # (N_EXP_PATS, N_GRID_POINTS, 3)
             cu_grid_current = cu_grid.clone().repeat(len(indices_batch), 1, 1)
@@ -303,6 +307,10 @@ def orientation_grad_refinement(
             prefix=f"REFINE MP {i+1:01d}/{len(master_patterns):01d} ",
         )
         for indices_batch in pb:
+            # a phase may not have any patterns
+            if len(indices_batch) == 0:
+                continue
+
             # get the experiment patterns for this batch
             # (N_EXP_PATS, H, W)
             exp_pats = experiment_patterns.get_patterns(
-- 
2.43.0


From b954fc5a8e3ae4774f8384d4205882034ec2820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 072/153] fix: gradient refinement with an optimizable detector
 geometry

The graph of the detector coordinates was freed after the first step.
---
 ebsdtorch/ebsd/refining.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 184b4e1..58c6d47 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -293,6 +293,8 @@ def orientation_grad_refinement(
     detector_coords = geometry.get_coords_sample_frame(
         binning=(virtual_binning, virtual_binning)
     ).view(-1, 3)
+    # only the orientations are optimized here
+    detector_coords = detector_coords.detach()
 
     # normalize the detector coordinates to be unit vectors
     detector_coords = detector_coords / detector_coords.norm(dim=-1, keepdim=True)
-- 
2.43.0


From eab94f15ae5c987a474a0b03e51dd17adaadfccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 073/153] fix: pattern centre fit over several dictionary
 batches

The winning index of a batch has to be offset by the start of the batch.
---
 ebsdtorch/ebsd/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 440da9f..fa88b5f 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -508,7 +508,7 @@ def spatial_fft_pc_fitter(
 
             best_orientations[z_idx] = torch.where(
                 best_dots[z_idx] == batch_values,
-                batch_indices,
+                batch_indices + j,
                 best_orientations[z_idx],
             )
 
-- 
2.43.0


From bf28b305713c08692d5661b4b5ad3c606807a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 074/153] fix: pattern centre fit leaves the patterns unchanged

---
 ebsdtorch/ebsd/fitting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index fa88b5f..1699720 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -395,11 +395,12 @@ def spatial_fft_pc_fitter(
             stride=virtual_binning,
         )
 
-    patterns -= patterns.view(B, -1).min(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
-    patterns /= patterns.view(B, -1).max(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
+    # (not in place, the patterns belong to the caller)
+    patterns = patterns - patterns.amin(dim=(-2, -1), keepdim=True)
+    patterns = patterns / patterns.amax(dim=(-2, -1), keepdim=True)
 
     if metric == "dot":
-        patterns -= patterns.view(B, -1).mean(dim=-1, keepdim=True).view(B, 1, 1, 1)
+        patterns = patterns - patterns.mean(dim=(-2, -1), keepdim=True)
 
     pixel_coords_det_ref, padding, padded_shape = get_3D_pixel_coords_with_periphery(
         detector_shape=(H, W),
-- 
2.43.0


From d7a4728bd7415dd6cf5e32a2b7f5b75ac644db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 075/153] fix: pattern centre fit with an odd number of columns

---
 ebsdtorch/ebsd/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 1699720..f792c0a 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -488,7 +488,9 @@ def spatial_fft_pc_fitter(
 
             if metric == "dot":
                 sim_pats_fft = rfft2(sim_pats, dim=(-2, -1))
-                dots_full = fftshift(irfft2(sim_pats_fft * pattern_fft), dim=(-2, -1))
+                dots_full = fftshift(
+                    irfft2(sim_pats_fft * pattern_fft, s=padded_shape), dim=(-2, -1)
+                )
             elif metric == "mi":
                 dots_full = cmif(
                     images_dst=sim_pats,
-- 
2.43.0


From ec5c6fd8e99784f4c3be65b2139c54fa70e48a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 076/153] fix: sign and origin of the fitted pattern centre
 shift

The pattern matches the simulation for a centred source displaced by s pixels
when the source sits at 0.5 - s / size, and a zero shift is at half the padded
size, also when the padding is not symmetric.
---
 ebsdtorch/ebsd/fitting.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index f792c0a..c9ee4ea 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -244,10 +244,11 @@ def get_3D_pixel_coords_with_periphery(
     # get binned shape
     binning_fp = float(binning)
 
-    w_pad_prior = int((0.5 - pc_x_min) * detector_shape[1] / binning_fp)
-    w_pad_after = int((pc_x_max - 0.5) * detector_shape[1] / binning_fp)
-    h_pad_prior = int((0.5 - pc_y_min) * detector_shape[0] / binning_fp)
-    h_pad_after = int((pc_y_max - 0.5) * detector_shape[0] / binning_fp)
+    # a larger pattern center moves the detector towards smaller pixel indices
+    w_pad_prior = int((pc_x_max - 0.5) * detector_shape[1] / binning_fp)
+    w_pad_after = int((0.5 - pc_x_min) * detector_shape[1] / binning_fp)
+    h_pad_prior = int((pc_y_max - 0.5) * detector_shape[0] / binning_fp)
+    h_pad_after = int((0.5 - pc_y_min) * detector_shape[0] / binning_fp)
 
     binned_shape = (
         (detector_shape[0] // binning) + h_pad_prior + h_pad_after,
@@ -529,8 +530,9 @@ def spatial_fft_pc_fitter(
     )
 
     best_pc_z = pc_z_vals[best_z_idx]
-    best_pc_y = 0.5 + float(best_y_idx - padding[2] - (H_bin + 1) // 2) / H_bin
-    best_pc_x = 0.5 + float(best_x_idx - padding[0] - (W_bin + 1) // 2) / W_bin
+    # fftshift puts the zero shift at half the padded size
+    best_pc_y = 0.5 - float(best_y_idx - padded_shape[0] // 2) / H_bin
+    best_pc_x = 0.5 - float(best_x_idx - padded_shape[1] // 2) / W_bin
 
     # Get the best orientation for each pattern in the batch
     best_orientations_batch = best_orientations[best_z_idx, :, best_y_idx, best_x_idx]
-- 
2.43.0


From 4e9be11eb9ef4fbdf289e0328b403d1aa9545005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 077/153] fix: pattern centre fit stays within the requested
 range

Shifts that push the pattern out of the simulated periphery wrap around.
---
 ebsdtorch/ebsd/fitting.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index c9ee4ea..c7ae8f3 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -430,8 +430,10 @@ def spatial_fft_pc_fitter(
 
     pc_z_vals = torch.linspace(pc_z_min, pc_z_max, pc_z_steps, device=patterns.device)
 
-    best_dots = torch.zeros(
-        (pc_z_steps, B, padded_shape[0], padded_shape[1]), device=patterns.device
+    best_dots = torch.full(
+        (pc_z_steps, B, padded_shape[0], padded_shape[1]),
+        float("-inf"),
+        device=patterns.device,
     )
     best_orientations = torch.zeros(
         (pc_z_steps, B, padded_shape[0], padded_shape[1]),
@@ -446,6 +448,18 @@ def spatial_fft_pc_fitter(
         value=0.0,
     ).repeat(B, 1, 1, 1)
 
+    # shifts that keep the pattern within the periphery
+    shift_y = torch.arange(padded_shape[0], device=patterns.device)[:, None]
+    shift_y = shift_y - padded_shape[0] // 2
+    shift_x = torch.arange(padded_shape[1], device=patterns.device)[None, :]
+    shift_x = shift_x - padded_shape[1] // 2
+    in_range = (
+        (shift_y >= -padding[2])
+        & (shift_y <= padding[3])
+        & (shift_x >= -padding[0])
+        & (shift_x <= padding[1])
+    )
+
     # get a helper function to sync devices
     if patterns.device.type == "cuda":
         sync = torch.cuda.synchronize
@@ -504,6 +518,9 @@ def spatial_fft_pc_fitter(
             else:
                 raise ValueError("Invalid metric.")
 
+            # shifts beyond the periphery would wrap around
+            dots_full = torch.where(in_range, dots_full, float("-inf"))
+
             # dots_full is shape (D, B, padded_shape[0], padded_shape[1])
             # need to max-reduce over the D batch dimension and track which orientation won
             batch_values, batch_indices = torch.max(dots_full, dim=0)
-- 
2.43.0


From ab9b8d0fd2ef8e6392865a6744cf1ef2c5db8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 078/153] fix: joint histogram bins of the mutual information
 collide

---
 ebsdtorch/utils/mutual_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c3f967f..d6f17bc 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -48,7 +48,7 @@ def mutual_information(
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
 
-    joint_bin = a_bin * (n_bins - 1) + b_bin
+    joint_bin = a_bin * n_bins + b_bin
 
     # get the histogram
     if B1 == B2:
-- 
2.43.0


From 84e92f86f9c11d1f93a55d9506dae9ae34e9bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 079/153] fix: mutual information with a constant image

---
 ebsdtorch/utils/mutual_information.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index d6f17bc..00e5137 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -42,8 +42,15 @@ def mutual_information(
     b_maxvals = b.max(dim=-1, keepdim=True).values
 
     if normalize:
-        a_bin = ((a - a_minvals) / (a_maxvals - a_minvals) * n_bins * 0.999999).long()
-        b_bin = ((b - b_minvals) / (b_maxvals - b_minvals) * n_bins * 0.999999).long()
+        # (constant rows have no range, all of their values are in the lowest bin)
+        a_range = torch.where(
+            a_maxvals > a_minvals, a_maxvals - a_minvals, torch.ones_like(a_minvals)
+        )
+        b_range = torch.where(
+            b_maxvals > b_minvals, b_maxvals - b_minvals, torch.ones_like(b_minvals)
+        )
+        a_bin = ((a - a_minvals) / a_range * n_bins * 0.999999).long()
+        b_bin = ((b - b_minvals) / b_range * n_bins * 0.999999).long()
     else:
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
-- 
2.43.0


From e67a3400fa22e9687f46519106fbd38fbeb3faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 080/153] fix: binned mutual information of images that reach
 their maximum

The value 1 fell into a bin of its own, which was dropped or, in the joint
histogram, counted as another bin.
---
 ebsdtorch/utils/mutual_information.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 00e5137..5bb9f51 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -180,8 +180,9 @@ def binned_nmi(
     x = x.view(-1)
     y = y.view(-1)
 
-    x_binned = torch.floor(x * binsx)
-    y_binned = torch.floor(y * binsy)
+    # the highest bin includes its upper edge
+    x_binned = torch.floor(x * binsx).clamp(max=binsx - 1)
+    y_binned = torch.floor(y * binsy).clamp(max=binsy - 1)
 
     # Create a combined variable for 1D histogram
     xy_combined = x_binned * binsy + y_binned
@@ -379,7 +380,9 @@ def cmif(
     images_dst = images_dst.view(-1, 1, h1, w1)
     images_src = images_src.view(-1, 1, h1, w1)
 
-    dst_levels = (bins_dst * images_dst).byte().repeat(1, bins_dst, 1, 1)
+    # (the highest bin includes its upper edge)
+    dst_levels = (bins_dst * images_dst).clamp(max=bins_dst - 1).byte()
+    dst_levels = dst_levels.repeat(1, bins_dst, 1, 1)
     dst_levels = (
         dst_levels
         == torch.arange(bins_dst, dtype=torch.uint8, device=images_dst.device)[
@@ -387,7 +390,8 @@ def cmif(
         ]
     )
 
-    src_levels = (bins_src * images_src).byte().repeat(1, bins_src, 1, 1)
+    src_levels = (bins_src * images_src).clamp(max=bins_src - 1).byte()
+    src_levels = src_levels.repeat(1, bins_src, 1, 1)
     src_levels = (
         src_levels
         == torch.arange(bins_src, dtype=torch.uint8, device=images_src.device)[
-- 
2.43.0


From 7d1bfc15c175bd6610f272840397a59229c3b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 081/153] fix: cross mutual information ignores pixels outside
 the masks

---
 ebsdtorch/utils/mutual_information.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 5bb9f51..a0ae333 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -410,6 +410,10 @@ def cmif(
     else:
         src_ind = src_ind.view(-1, 1, h1, w1)
 
+    # only the pixels within the masks count
+    dst_levels = dst_levels * dst_ind
+    src_levels = src_levels * src_ind
+
     # add the indicator images to the beginning of the levels
     dst_levels = torch.cat((dst_ind, dst_levels), dim=1)
     src_levels = torch.cat((src_ind, src_levels), dim=1)
-- 
2.43.0


From d2dfb2570e2879db3a0da3d31c08d8209446c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 082/153] fix: cross mutual information keeps bins with a
 single pixel

The FFT returns a count of one only up to rounding.
---
 ebsdtorch/utils/mutual_information.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index a0ae333..768faaa 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -503,8 +503,8 @@ def cmif(
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
-                # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                # where the bin is empty up to the rounding of the FFT, set it to zero
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
@@ -514,8 +514,8 @@ def cmif(
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
-                # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                # where the bin is empty up to the rounding of the FFT, set it to zero
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
                 joint_p = cross_corr_real / tally_joint
                 joint_p_log_p = torch.where(
@@ -587,8 +587,8 @@ def cmif(
             # Inverse 2D real valued fourier transform and shift and abs
             cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
 
-            # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            # where the bin is empty up to the rounding of the FFT, set it to zero
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
@@ -617,8 +617,8 @@ def cmif(
             # Inverse 2D real valued fourier transform and shift and abs
             cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
 
-            # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            # where the bin is empty up to the rounding of the FFT, set it to zero
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
-- 
2.43.0


From 6775498a56f1147716a7d2c2c1c6355c41b4cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 083/153] fix: cross mutual information of images with an odd
 number of columns

---
 ebsdtorch/utils/mutual_information.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 768faaa..e0d8c21 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -460,11 +460,17 @@ def cmif(
         else:
             # first compute the marginal histograms
             marg_hists_dst = fftshift(
-                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :]),
+                irfft2(
+                    src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :],
+                    s=[h1, w1],
+                ),
                 dim=(-2, -1),
             )
             marg_hists_src = fftshift(
-                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :]),
+                irfft2(
+                    src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :],
+                    s=[h1, w1],
+                ),
                 dim=(-2, -1),
             )
 
@@ -502,7 +508,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=[h1, w1]), dim=(-2, -1))
                 # where the bin is empty up to the rounding of the FFT, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
@@ -513,7 +519,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=[h1, w1]), dim=(-2, -1))
                 # where the bin is empty up to the rounding of the FFT, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
@@ -585,7 +591,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=[h1, w1]), dim=(-2, -1))
 
             # where the bin is empty up to the rounding of the FFT, set it to zero
             cross_corr_real[cross_corr_real < 0.5] = 0.0
@@ -615,7 +621,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=[h1, w1]), dim=(-2, -1)).real
 
             # where the bin is empty up to the rounding of the FFT, set it to zero
             cross_corr_real[cross_corr_real < 0.5] = 0.0
-- 
2.43.0


From 7134e50a59c1cdc0ece6fd845afa96eae3d6d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 084/153] fix: chunked cross mutual information skips the last
 bin

---
 ebsdtorch/utils/mutual_information.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index e0d8c21..f5ecad0 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -502,8 +502,8 @@ def cmif(
             (images_dst.shape[0], images_src.shape[0], h1, w1), device=images_dst.device
         )
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 # print which chunk begin and end for each
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
@@ -514,8 +514,8 @@ def cmif(
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-- 
2.43.0


From b48f8d7ed94459c07aea46db02d8f0253c2e85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 085/153] fix: chunked cross mutual information of several
 images

The marginals of every pair of images are needed, not those of equal indices.
---
 ebsdtorch/utils/mutual_information.py | 32 ++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index f5ecad0..c6791fe 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -458,25 +458,37 @@ def cmif(
             ent_dst = -torch.sum(marg_dst_p_log_p)
 
         else:
-            # first compute the marginal histograms
+            # first compute the marginal histograms, (N_DST, N_SRC, bins, H, W)
             marg_hists_dst = fftshift(
                 irfft2(
-                    src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :],
+                    torch.einsum(
+                        "bihw,cjhw->bcijhw",
+                        dst_levels_fft[:, 1:],
+                        src_levels_fft[:, 0:1],
+                    ),
                     s=[h1, w1],
                 ),
                 dim=(-2, -1),
-            )
+            ).squeeze(3)
             marg_hists_src = fftshift(
                 irfft2(
-                    src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :],
+                    torch.einsum(
+                        "bihw,cjhw->bcijhw",
+                        dst_levels_fft[:, 0:1],
+                        src_levels_fft[:, 1:],
+                    ),
                     s=[h1, w1],
                 ),
                 dim=(-2, -1),
-            )
+            ).squeeze(2)
+
+            # where the bin is empty up to the rounding of the FFT, set it to zero
+            marg_hists_dst[marg_hists_dst < 0.5] = 0.0
+            marg_hists_src[marg_hists_src < 0.5] = 0.0
 
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
+            marg_hists_src /= marg_hists_src.sum(dim=2, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=2, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -491,8 +503,8 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=2)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=2)
 
         # total number of pixel pair values is the olap value so we can normalize the histogram bars in the joint as they come
         ent_joint = torch.zeros(
@@ -523,7 +535,7 @@ def cmif(
                 # where the bin is empty up to the rounding of the FFT, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
-                joint_p = cross_corr_real / tally_joint
+                joint_p = cross_corr_real / tally_joint[:, :, None, None]
                 joint_p_log_p = torch.where(
                     joint_p > 0.0,
                     joint_p * torch.log(joint_p),
-- 
2.43.0


From 75d6fb8ce8d79ee7f5a89607ead68288dd939c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 086/153] fix: cross mutual information with constant marginals

The chunked variant indexed with float masks, the marginals ignored the masks
and the normalizations did not broadcast over the pairs of images.
---
 ebsdtorch/utils/mutual_information.py | 103 ++++----------------------
 1 file changed, 16 insertions(+), 87 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c6791fe..30e6075 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -422,42 +422,24 @@ def cmif(
     dst_levels_fft = rfft2(dst_levels.float())
     src_levels_fft = rfft2(src_levels.float()).conj()
 
-    # if binning is more than 16, have to do this in chunks
-    if bins_src > 8 or bins_dst > 8:
-        if constant_marginal:
-            # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src).byte()
-            dst_discrete = (bins_dst * images_dst).byte()
+    # the marginals of the entire images (within their masks), replaced below by
+    # those of the overlap at every shift unless constant marginals are wanted
+    marg_hists_dst = dst_levels[:, 1:].float().sum(dim=(-2, -1))
+    marg_hists_src = src_levels[:, 1:].float().sum(dim=(-2, -1))
 
-            # calculate the marginal histograms
-            marg_hists_dst = torch.histc(
-                dst_discrete[src_ind].float(), bins=bins_dst, min=0, max=bins_dst - 1
-            )
-            marg_hists_src = torch.histc(
-                src_discrete[dst_ind].float(), bins=bins_src, min=0, max=bins_src - 1
-            )
-
-            # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum()
-            marg_hists_dst /= marg_hists_dst.sum()
-
-            # calculate the marginal log probabilities
-            marg_src_p_log_p = torch.where(
-                marg_hists_src > 0.0,
-                marg_hists_src * torch.log(marg_hists_src),
-                torch.zeros_like(marg_hists_src),
-            )
-            marg_dst_p_log_p = torch.where(
-                marg_hists_dst > 0.0,
-                marg_hists_dst * torch.log(marg_hists_dst),
-                torch.zeros_like(marg_hists_dst),
-            )
+    # normalize the marginal histograms
+    marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
+    marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
 
-            # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p)
-            ent_dst = -torch.sum(marg_dst_p_log_p)
+    # find the entropies, one scalar per image for every pair and every shift
+    ent_src = -torch.special.xlogy(marg_hists_src, marg_hists_src).sum(dim=1)
+    ent_dst = -torch.special.xlogy(marg_hists_dst, marg_hists_dst).sum(dim=1)
+    ent_src = ent_src[None, :, None, None]
+    ent_dst = ent_dst[:, None, None, None]
 
-        else:
+    # if binning is more than 16, have to do this in chunks
+    if bins_src > 8 or bins_dst > 8:
+        if not constant_marginal:
             # first compute the marginal histograms, (N_DST, N_SRC, bins, H, W)
             marg_hists_dst = fftshift(
                 irfft2(
@@ -545,56 +527,6 @@ def cmif(
 
     else:
         if constant_marginal:
-            # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src * 0.99999).long()
-            dst_discrete = (bins_dst * images_dst * 0.99999).long()
-
-            # have to use scatter instead
-            marg_hists_dst = torch.zeros(
-                images_dst.shape[0], bins_dst, device=images_dst.device
-            )
-            marg_hists_src = torch.zeros(
-                images_src.shape[0], bins_src, device=images_src.device
-            )
-
-            # reshape to be (B, n_bins, -1)
-            src_discrete = src_discrete.view(-1, h1 * w1)
-            dst_discrete = dst_discrete.view(-1, h1 * w1)
-
-            # scatter the joint histogram
-            marg_hists_dst = marg_hists_dst.scatter_(
-                -1,
-                dst_discrete,
-                1,
-                reduce="add",
-            )
-            marg_hists_src = marg_hists_src.scatter_(
-                -1,
-                src_discrete,
-                1,
-                reduce="add",
-            )
-
-            # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
-
-            # calculate the marginal log probabilities
-            marg_src_p_log_p = torch.where(
-                marg_hists_src > 0.0,
-                marg_hists_src * torch.log(marg_hists_src),
-                torch.zeros_like(marg_hists_src),
-            )
-            marg_dst_p_log_p = torch.where(
-                marg_hists_dst > 0.0,
-                marg_hists_dst * torch.log(marg_hists_dst),
-                torch.zeros_like(marg_hists_dst),
-            )
-
-            # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
-
             # element-wise multiply every possible pair of slices
             # the result is a tensor of shape (B, 1 + num_bins_src, 1 + num_bins_dst, H, W)
             # where the "1 +" are coming from the indicator bins for the image foreground
@@ -674,10 +606,7 @@ def cmif(
             ent_joint = -torch.sum(joint_p_log_p, dim=(2, 3))
 
     # mutual information is the sum of the marginal entropies minus the joint entropy
-    if constant_marginal:
-        mi = ent_dst[:, None, None, None] + ent_src[None, :, None, None] - ent_joint
-    else:
-        mi = ent_dst + ent_src - ent_joint
+    mi = ent_dst + ent_src - ent_joint
 
     # replace any NaNs or Infs or Negatives with zeros
     mi[torch.isnan(mi) | torch.isinf(mi) | (mi < 0.0)] = 0.0
-- 
2.43.0


From f4c1572253f0ab438be054f654c0a2dcc4edeb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 087/153] fix: normalized mutual information with a constant
 image

---
 ebsdtorch/utils/mutual_information.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 30e6075..429cd11 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -249,6 +249,9 @@ def binned_nmi(
         )
     else:
         raise ValueError(f"Unknown normalization mode: {norm_mode}")
+
+    # a constant image carries no information
+    nmi = torch.nan_to_num(nmi, nan=0.0, posinf=0.0, neginf=0.0)
     return nmi
 
 
@@ -633,6 +636,9 @@ def cmif(
         )
     else:
         raise ValueError(f"Unknown normalization mode: {norm_mode}")
+
+    # a constant image carries no information
+    nmi[torch.isnan(nmi) | torch.isinf(nmi)] = 0.0
     return nmi
 
 
-- 
2.43.0


From 2cffb737de5a3fc886dce86df93f10eb296cf9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 088/153] fix: binned mutual information misplaces values on
 bin edges

---
 ebsdtorch/utils/mutual_information.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 429cd11..67cc9c4 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -188,7 +188,10 @@ def binned_nmi(
     xy_combined = x_binned * binsy + y_binned
 
     # Calculate the 1D histogram using a flattening trick so that it can run on the GPU
-    hist = torch.histc(xy_combined, bins=(binsx * binsy), min=0, max=(binsx * binsy))
+    # (at the bin centers, because histc rounds at the bin edges)
+    hist = torch.histc(
+        xy_combined + 0.5, bins=(binsx * binsy), min=0, max=(binsx * binsy)
+    )
     joint_hist = hist.view(binsx, binsy)
 
     # Exclude the lowest bin if the flag is set
-- 
2.43.0


From a572c116713622c1907dc4b00d9eb85214588d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 089/153] fix: Gaussian blur keeps the size of images with odd
 sides

---
 ebsdtorch/preprocessing/resampling.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index 4089cdf..20a65a8 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -29,6 +29,8 @@ class GaussianBlur2d(Module):
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        h, w = x.shape[-2:]
+
         # apply padding
         pad = self._compute_padding(x)
         if self.reflect_padding:
@@ -40,15 +42,7 @@ class GaussianBlur2d(Module):
         x = F.conv2d(x, self.kernel, padding=0)
 
         # crop off the padding
-        h_even = x.shape[-2] % 2 == 0
-        w_even = x.shape[-1] % 2 == 0
-        x = x[
-            :,
-            :,
-            : -2 if h_even else -1,
-            : -2 if w_even else -1,
-        ]
-        return x
+        return x[:, :, :h, :w]
 
     def _get_gaussian_kernel(self) -> torch.Tensor:
         # establish the kernel size
-- 
2.43.0


From 6f3547da4067bb497c2925541dc359487bbe8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 090/153] fix: Wigner d tables are finite at beta = 0

---
 ebsdtorch/harmonics/wigner_d_logspace.py |  5 +++++
 ebsdtorch/harmonics/wigner_d_xnum.py     | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/ebsdtorch/harmonics/wigner_d_logspace.py b/ebsdtorch/harmonics/wigner_d_logspace.py
index f279fd9..70d4104 100644
--- a/ebsdtorch/harmonics/wigner_d_logspace.py
+++ b/ebsdtorch/harmonics/wigner_d_logspace.py
@@ -150,6 +150,11 @@ def log_powers_trig_half_beta(
     # Compute the powers
     cos_powers = powers * math.log(math.cos(beta / 2.0))
     sin_powers = powers * math.log(math.sin(beta / 2.0))
+
+    # the zeroth power is one even where log(sin(0)) is -inf
+    cos_powers[0] = 0.0
+    sin_powers[0] = 0.0
+
     return cos_powers, sin_powers
 
 
diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 8973db9..5315394 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -164,6 +164,14 @@ def trig_powers_xnum(
     log_cos_powers = lmch * powers
     log_sin_powers = lmsh * powers
 
+    # sin(0) has no log: its zeroth power is one and all others are zero, so use
+    # finite logs here and write the zeros into the mantissas below
+    sin_is_zero = sh == 0
+    log_sin_powers = torch.where(
+        sin_is_zero, torch.zeros_like(log_sin_powers), log_sin_powers
+    )
+    lmsh_sign = torch.where(sin_is_zero, torch.zeros_like(lmsh_sign), lmsh_sign)
+
     # split according to 2**460
     log_cos_powers_x = torch.abs(log_cos_powers) % 460
     log_sin_powers_x = torch.abs(log_sin_powers) % 460
@@ -175,6 +183,9 @@ def trig_powers_xnum(
     # calculate the x-number mantissas
     cos_powers_x = torch.pow(2.0, log_cos_powers_x * lmch_sign)
     sin_powers_x = torch.pow(2.0, log_sin_powers_x * lmsh_sign)
+    sin_powers_x = torch.where(
+        sin_is_zero & (powers > 0), torch.zeros_like(sin_powers_x), sin_powers_x
+    )
 
     # call x_norm to normalize the x-numbers
     cos_powers_x, cos_powers_x_i = xnum_norm((cos_powers_x, cos_powers_x_i))
-- 
2.43.0


From 169c00e4566e8b4e65a7888813879d799ec15180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 091/153] fix: wigner_d_xnum uses the powers of one half at
 pi/2, not pi

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 5315394..2dd8239 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -336,7 +336,7 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
-    if beta.item() == torch.pi:
+    if beta.item() == torch.pi / 2.0:
         wigner_xnum[0][first_seed_indices] = (
             torch.exp(
                 0.5
-- 
2.43.0


From bde3eb89b734d744a2d0fc4e50ba5971af9f01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 092/153] fix: rs2cc_fast_ sums over the negative orders too

---
 ebsdtorch/harmonics/sht_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht_cc.py b/ebsdtorch/harmonics/sht_cc.py
index 554eae0..5388d27 100644
--- a/ebsdtorch/harmonics/sht_cc.py
+++ b/ebsdtorch/harmonics/sht_cc.py
@@ -202,11 +202,11 @@ def rs2cc_fast_(
     )
 
     f_lmkb = torch.einsum("lmk,bml->blmk", d_lmk[:, (B - 1) :, :], f)
-    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk[:, :, (B - 1) :], g.conj())
+    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk, g_n_aug)
     cc = torch.einsum("blmk,blkn->bmkn", f_lmkb, g_lknb)
 
     # Need to do fftshift so that the low frequencies are at the periphery
-    cc = ifftshift(cc, dim=(-2))
+    cc = ifftshift(cc, dim=(-1, -2))
 
     # dim=(..., -3) means the half dimension is the -3 dimension (m)
     cc = irfftn(cc, s=(2 * B - 1,) * 3, dim=(-1, -2, -3), norm="forward")
-- 
2.43.0


From 45011c2e64fb44a9b2390a69592b7cf13db86ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 093/153] fix: bse_sim_mc counts every electron that exits in
 the same bin

---
 ebsdtorch/simulation/monte_carlo.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/simulation/monte_carlo.py b/ebsdtorch/simulation/monte_carlo.py
index 2f2ca0a..c36caf1 100644
--- a/ebsdtorch/simulation/monte_carlo.py
+++ b/ebsdtorch/simulation/monte_carlo.py
@@ -226,12 +226,21 @@ def bse_sim_mc(
         exit_direction_indices = exit_direction_indices[valid_mask]
 
         # push MC batch into accumulator
-        accumulator[
-            exit_energy_indices,
-            exit_depth_indices,
-            exit_direction_indices[..., 0],
-            exit_direction_indices[..., 1],
-        ] += 1
+        # accumulate so that electrons exiting in the same bin are all counted
+        accumulator.index_put_(
+            [
+                exit_energy_indices,
+                exit_depth_indices,
+                exit_direction_indices[..., 0],
+                exit_direction_indices[..., 1],
+            ],
+            torch.ones(
+                exit_energy_indices.shape,
+                device=device,
+                dtype=accumulator.dtype,
+            ),
+            accumulate=True,
+        )
 
         # reset if the ticks are greater than the max
         ticks += 1
-- 
2.43.0


From 864d940cc4b8610f8837a416f8c0e8107265def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 094/153] fix: linear depth resampling interpolates in the
 segment that holds the point

---
 ebsdtorch/crystallography/ebsd_mc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 9753a3d..edef688 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -409,8 +409,10 @@ class MonteCarloSimulator:
 
         if extrapolate == "error":
             # Check for out-of-range indices
-            if torch.any(indices < 0) or torch.any(indices >= m.shape[-1]):
+            if torch.any(x < xp[..., :1]) or torch.any(x > xp[..., -1:]):
                 raise ValueError("(some) interpolation indices out of range")
+            # xp[indices - 1] < x <= xp[indices], which is segment indices - 1
+            indices = torch.clamp(indices - 1, 0, m.shape[-1] - 1)
         elif extrapolate == "const":
             # Pad for constant values outside range
             m = torch.cat(
-- 
2.43.0


From ae9e6746736d81e5fdf28bf61398d23679926647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 095/153] fix: read the origin shift of second-setting space
 groups

The shift letters follow a flag digit, which was read as the first letter, so
every second setting raised a KeyError. The wrap of the shifted translations
also zeroed the homogeneous corner, which loses translations on closure.
---
 ebsdtorch/crystallography/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index cd73d5d..10ce995 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -310,7 +310,7 @@ def read_sg_gen_string(
     # now check for special origin conditions (choices 1 and 2)
     if (gen_string[2 + 4 * gen_num] != "0") and sg_setting == 2:
         print("Special origin condition")
-        t = gen_string[2 + 4 * gen_num : (2 + 4 * gen_num) + 3]
+        t = gen_string[3 + 4 * gen_num : (3 + 4 * gen_num) + 3]
         translate_forward = torch.tensor(
             [
                 [1.0, 0.0, 0.0, -trans_map[t[0]]],
@@ -334,18 +334,18 @@ def read_sg_gen_string(
             torch.matmul(gens, translate_forward),
         )
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3]) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3]) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
-        gens[:, :, 3] = torch.fmod(1000 + gens[:, :, 3], 1.0)
+        gens[:, :3, 3] = torch.fmod(1000 + gens[:, :3, 3], 1.0)
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3] - 1.0) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3] - 1.0) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
     return gens
-- 
2.43.0


From 454c04ff17fe8c0fa5fb1697b46fce7a5696d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 096/153] fix: keep the last row of the space group operators
 affine

Wrapping the translations to the unit cell turned the homogeneous 1 into 0, so
operators composed as 4x4 matrices lost their translations.
---
 ebsdtorch/crystallography/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index 10ce995..2448c17 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -473,7 +473,7 @@ def sg_operators(
                 if len(gens) >= target_ord:
                     break
 
-    gens[:, :, 3] = torch.fmod(100 + gens[:, :, 3], 1.0)
+    gens[:, :3, 3] = torch.fmod(100 + gens[:, :3, 3], 1.0)
 
     return gens
 
-- 
2.43.0


From a6dea372d4f4bea8236b71ef3f2574bdc78f2cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 097/153] fix: compare equivalent positions periodically

A site just below a unit cell face and its image on the opposite face were
counted as two atoms.
---
 ebsdtorch/crystallography/unit_cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index e878766..a10640e 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -134,7 +134,9 @@ def unique_rows(a: Tensor, eps: float = 5e-4) -> Tensor:
         if not remove[i]:
             # equals = torch.all(torch.abs(a[i, :] - a[(i + 1) :]) < eps, dim=1)
             # use sum
-            equals = torch.sum(torch.abs(a[i, :] - a[(i + 1) :]), dim=1) < eps
+            # positions are fractional so the comparison is periodic
+            diff = a[i, :] - a[(i + 1) :]
+            equals = torch.sum(torch.abs(diff - torch.round(diff)), dim=1) < eps
             remove[(i + 1) :] = torch.logical_or(remove[(i + 1) :], equals)
     return a[~remove]
 
-- 
2.43.0


From dc068c3048879a0baea2890745ee4921ac6e591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 098/153] fix: transpose the reciprocal structure matrix

The columns of the reciprocal structure matrix are the reciprocal basis vectors,
i.e. the inverse transpose of the direct structure matrix. transform_space and
calc_cross use it that way, so conversions between Cartesian and lattice frames
were wrong for every cell with an angle other than 90 degrees.
---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index a10640e..a8f027d 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -300,8 +300,8 @@ class Cell:
             device=device,
         )
 
-        # 5) reciprocal structure matrix is the inverse of the direct structure matrix
-        self.rsm = torch.linalg.inv(self.dsm)
+        # 5) reciprocal structure matrix is the inverse transpose of the direct one
+        self.rsm = torch.linalg.inv(self.dsm).T
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-- 
2.43.0


From b738c3f86f417e825ff05bbae6be0756c6e67c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 099/153] fix: second structure matrix of rhombohedral cells

The lattice angle is already in radians and was multiplied by pi again (NaN for
ordinary angles), and the two rotations were transposed, so the three-fold axis
did not end up along z.
---
 ebsdtorch/crystallography/unit_cell.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index a8f027d..ce797b0 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -305,17 +305,17 @@ class Cell:
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-            x = 0.5 / torch.cos(torch.pi * 0.5 * self.alpha)
+            x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
-            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
+            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device)
 
             x = (
                 2
-                * torch.sin(torch.pi * 0.5 * self.alpha)
+                * torch.sin(0.5 * self.alpha)
                 / torch.sqrt(torch.tensor(3.0, device=device))
             )
             y = torch.sqrt(1 - x * x)
-            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device).T
+            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device)
             self.dsm2 = torch.matmul(torch.matmul(My, Mx), self.dsm)
         else:
             self.dsm2 = None
-- 
2.43.0


From 3040fdcbd5266763605653e0e10e436e9c571164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 100/153] fix: average atomic number and weight of cells with
 several sites

The sum over the sites was replaced by a mean, so both averages came out too
small by the number of sites in the asymmetric unit.
---
 ebsdtorch/crystallography/unit_cell.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index ce797b0..3155506 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -355,15 +355,16 @@ class Cell:
 
         # 8) Compute average atomic number, weight and density
         self.average_atomic_number = (
-            torch.mean(
+            torch.sum(
                 self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
             )
-            / self.mults.sum()
+            / (self.atom_data[:, 3] * self.mults).sum()
         )
 
         a_weights = atomic_weights[self.atom_types - 1].to(self.device)
         self.average_atomic_weight = (
-            torch.mean(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
+            torch.sum(a_weights * self.atom_data[:, 3] * self.mults)
+            / (self.atom_data[:, 3] * self.mults).sum()
         )
 
         # Density in g/cm^3
-- 
2.43.0


From 38115a041aa37b3f533fc30e1e3f9f7ddbb48a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 101/153] fix: cross products for every pair of frames

The product of two direct (reciprocal) vectors could not be returned in the
reciprocal (direct) frame, which needs no matrix at all, and a product of two
Cartesian vectors ignored the requested output frame.
---
 ebsdtorch/crystallography/unit_cell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 3155506..ff13bde 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -752,14 +752,18 @@ class Cell:
                 return torch.einsum("...i,ij->...j", r, self.rmt)
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.rsm, r)
+            elif outspace == "r":
+                return r
         elif inspace == "r":
             r = torch.cross(p, q, dim=-1) / vl
             if outspace == "r":
                 return torch.einsum("...i,ij->...j", r, self.dmt)
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.dsm, r)
+            elif outspace == "d":
+                return r
         elif inspace == "c":
-            return torch.cross(p, q, dim=-1)
+            return self.transform_space(torch.cross(p, q, dim=-1), "c", outspace)
 
         raise ValueError(f"Invalid space transformation: from {inspace} to {outspace}")
 
-- 
2.43.0


From 1438757a08a8805f7ecd865d3b2e1bb41901835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 102/153] fix: conversion of rhombohedral cells to the
 hexagonal setting

The angle was treated as degrees although it is stored in radians, the new
angles were stored in degrees, the coordinate matrix was transposed and of
another dtype than the positions (so the call raised), only as many sites as
there are elements were converted, and the metric tensors, structure matrices,
orbits and density were left as those of the rhombohedral cell.
---
 ebsdtorch/crystallography/unit_cell.py | 43 ++++++++++++++++----------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index ff13bde..706d2dc 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -790,32 +790,41 @@ class Cell:
         Convert lattice parameters and atom coordinates to the hexagonal unit cell.
         We use the obverse setting in all cases.
         """
-        # Convert lattice parameters to hexagonal
-        calpha = torch.cos(self.alpha * torch.pi / 180.0)
-        ar = self.a
-
-        self.alpha = torch.tensor(90.0, device=self.device)
-        self.beta = torch.tensor(90.0, device=self.device)
-        self.gamma = torch.tensor(120.0, device=self.device)
-        self.a = ar * torch.sqrt(torch.tensor(2.0, device=self.device) - 2.0 * calpha)
-        self.b = self.a
-        self.c = ar * torch.sqrt(torch.tensor(3.0, device=self.device) + 6.0 * calpha)
+        # Convert lattice parameters to hexagonal (angles are stored in radians)
+        calpha = torch.cos(self.alpha)
+        a_hex = (self.a * torch.sqrt(2.0 - 2.0 * calpha)).item()
+        c_hex = (self.a * torch.sqrt(3.0 + 6.0 * calpha)).item()
 
         # Transform matrix
         M = torch.tensor(
             [
-                [2.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0],
+                [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
             ],
             device=self.device,
+            dtype=torch.float64,
         )
 
         # Transform atom coordinates
-        for i in range(self.atom_ntype):
-            pos = self.atom_data[i, :3].clone()
-            pos = torch.matmul(M, pos)
-            self.atom_data[i, :3] = pos
+        atom_data = self.atom_data.to(torch.float64)
+        atom_data = torch.cat((atom_data[:, :3] @ M.T, atom_data[:, 3:]), dim=1)
+
+        # everything derived from the lattice parameters and positions changes
+        self.__init__(
+            sg_num=self.sg_num,
+            atom_data=[
+                (z, *row) for z, row in zip(self.atom_types.tolist(), atom_data.tolist())
+            ],
+            abc=(a_hex, a_hex, c_hex),
+            abc_units="nm",
+            angles=(90.0, 90.0, 120.0),
+            angles_units="deg",
+            sg_setting=self.sg_setting,
+            xtalname=self.xtalname,
+            source=self.source,
+            device=self.device,
+        )
 
     def is_g_allowed(self, g: torch.Tensor) -> bool:
         """Determine whether a reflection is allowed by lattice centering.
-- 
2.43.0


From b6b70561bdfedf54f8f325db2df67304a70612ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 103/153] fix: accept integer Miller indices in products,
 angles and frame changes

Lengths of integer vectors were supported, but their dot and cross products,
angles and transformations raised a dtype error.
---
 ebsdtorch/crystallography/unit_cell.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 706d2dc..a7eb292 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -538,6 +538,10 @@ class Cell:
         original_shape = t.shape
         t = t.reshape(-1, 3)
 
+        # Miller indices are integers
+        if not t.is_floating_point():
+            t = t.to(self.dmt.dtype)
+
         if inspace == "d":
             if outspace == "c":
                 d = torch.einsum("ij,...j->...i", self.dsm, t)
@@ -621,6 +625,12 @@ class Cell:
         Returns:
             torch.Tensor: Dot product p.q
         """
+        # Miller indices are integers
+        if not p.is_floating_point():
+            p = p.to(self.dmt.dtype)
+        if not q.is_floating_point():
+            q = q.to(self.dmt.dtype)
+
         if space == "d":
             return torch.einsum("...i,ij,...j->...", p, self.dmt, q)
         elif space == "r":
@@ -746,6 +756,12 @@ class Cell:
         """
         vl = self.vol if scale_by_volume else torch.tensor(1.0, device=self.device)
 
+        # Miller indices are integers
+        if not p.is_floating_point():
+            p = p.to(self.dmt.dtype)
+        if not q.is_floating_point():
+            q = q.to(self.dmt.dtype)
+
         if inspace == "d":
             r = vl * torch.cross(p, q, dim=-1)
             if outspace == "d":
-- 
2.43.0


From 2794f101a1fa8e2283f978d764b24491ae3f2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 104/153] fix: coordinate transformations with a general matrix

Two of the four cases used the transpose of the transformation matrix where the
inverse is meant, so a change of basis that is not a rotation (a change of cell,
for instance) could not be undone and did not preserve vectors.
---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index a7eb292..6f262d3 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -596,14 +596,14 @@ class Cell:
 
         if space == "d":
             if direction == "on":
-                d = torch.einsum("...i,ji->...j", t, talpha)
+                d = torch.einsum("...i,ij->...j", t, torch.linalg.inv(talpha))
             else:
                 d = torch.einsum("...i,ij->...j", t, talpha)
         else:
             if direction == "on":
                 d = torch.einsum("ij,...j->...i", talpha, t)
             else:
-                d = torch.einsum("ji,...j->...i", talpha, t)
+                d = torch.einsum("ij,...j->...i", torch.linalg.inv(talpha), t)
 
         # Reshape back to original shape
         return d.reshape(original_shape)
-- 
2.43.0


From ee98ebad4260cfe1a1af92aca6b6b5a36cc5663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 105/153] fix: complete reflection lists

The largest index along every axis was left out (range() style bounds applied to
inclusive limits), the limits were the ones of the axial reflections, which miss
reflections of oblique cells, and they were capped at 99.
---
 ebsdtorch/crystallography/unit_cell.py | 95 ++++----------------------
 1 file changed, 13 insertions(+), 82 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 6f262d3..872d7ae 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -892,44 +892,12 @@ class Cell:
         Returns:
             Tuple[int, int, int]: Maximum h, k, and l indices
         """
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        # h = g.a so a reflection of length at most 1/dmin has |h| <= |a| / dmin, for
+        # any lattice angles (the small margin only guards against rounding)
+        max_h, max_k, max_l = [
+            int(torch.floor(length / dmin * (1.0 + 1e-6)).item())
+            for length in (self.a, self.b, self.c)
+        ]
 
         return max_h, max_k, max_l
 
@@ -958,54 +926,17 @@ class Cell:
         else:
             filter_dmin = True
 
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        max_h, max_k, max_l = self.get_hkl_limits(dmin)
 
         if difference_table:  # differences of hkl (quadruple the size)
             h = torch.arange(
-                -2 * max_h + 1, 2 * max_h, device=self.device, dtype=torch.int64
+                -2 * max_h, 2 * max_h + 1, device=self.device, dtype=torch.int64
             )
             k = torch.arange(
-                -2 * max_k + 1, 2 * max_k, device=self.device, dtype=torch.int64
+                -2 * max_k, 2 * max_k + 1, device=self.device, dtype=torch.int64
             )
             l = torch.arange(
-                -2 * max_l + 1, 2 * max_l, device=self.device, dtype=torch.int64
+                -2 * max_l, 2 * max_l + 1, device=self.device, dtype=torch.int64
             )
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
@@ -1014,9 +945,9 @@ class Cell:
             hkl = hkl[(hkl != 0).any(dim=-1)]
         else:  # normal reflection table
             # Create grid of h,k,l indices
-            h = torch.arange(-max_h + 1, max_h, device=self.device, dtype=torch.int64)
-            k = torch.arange(-max_k + 1, max_k, device=self.device, dtype=torch.int64)
-            l = torch.arange(-max_l + 1, max_l, device=self.device, dtype=torch.int64)
+            h = torch.arange(-max_h, max_h + 1, device=self.device, dtype=torch.int64)
+            k = torch.arange(-max_k, max_k + 1, device=self.device, dtype=torch.int64)
+            l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
             hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
-- 
2.43.0


From 914ec4771c7559ae26e0e2d1027f27008a40bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 106/153] fix: leave 000 out of the list of reflections

The first row of the grid was dropped instead, which is the opposite corner: the
000 beam stayed in the list (its spacing is infinite) and the diffraction code,
which prepends it, had two of them.
---
 ebsdtorch/crystallography/unit_cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 872d7ae..2a162f7 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -950,7 +950,9 @@ class Cell:
             l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
-            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
+            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
+            # remove (0,0,0)
+            hkl = hkl[(hkl != 0).any(dim=-1)]
 
         if filter_centering:
             # Check if reflections are allowed by lattice centering
-- 
2.43.0


From b475105f27fab22b01cb180252004f4f8620bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 107/153] fix: refuse lattice angles that no cell can have

Their metric determinant is negative, so the volume is NaN, which is not smaller
than the limit; the cell was built with NaN matrices.
---
 ebsdtorch/crystallography/unit_cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 2a162f7..dca2946 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -273,7 +273,7 @@ class Cell:
         self.vol = torch.sqrt(torch.det(self.dmt))
 
         # Check volume
-        if self.vol < 1e-6:
+        if not self.vol >= 1e-6:
             raise ValueError(
                 f"Unit cell volume of {self.vol} nm^3 is suspiciously small"
             )
-- 
2.43.0


From 6f4a566c85040bd1e1d0a23e3a4ca73962d60d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 108/153] fix: sampling types of the trigonal space groups

Operator precedence made two of the conditions false for all but group 147, so
the groups -3, 32 and 31m were sampled on the sector of another group, which
does not cover the sphere.
---
 ebsdtorch/crystallography/kvectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index ab0e2b5..89024d2 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -161,11 +161,11 @@ def kvectors_grid(
             if 143 <= sg <= 167:  # trigonal
                 if 143 <= sg <= 146:  # 3
                     stnum = 10
-                elif sg == 147 <= 155:  # bar3 and 32
+                elif 147 <= sg <= 155:  # bar3 and 32
                     stnum = 12
                 elif sg in [156, 158, 160, 161]:  # 3m
                     stnum = 14
-                elif sg == 157 | sg == 159:  # 3m
+                elif sg in [157, 159]:  # 3m
                     stnum = 15
                 elif sg in [162, 163]:  # bar3m
                     stnum = 17
-- 
2.43.0


From b78e1e21e1b667e7c36480c8986dbbdf0b702057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 109/153] fix: hexagonal grids of incident directions

The masks treat the grid indices as oblique hexagonal coordinates (axes at 120
degrees), but the directions were computed as if they were Cartesian, so neither
the shape nor the angle of the sampled sector was the intended one. Points on
the rim of the hexagon were kept or dropped depending on rounding.
---
 ebsdtorch/crystallography/kvectors.py | 63 ++++++++++-----------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 89024d2..b30bc3c 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -197,6 +197,13 @@ def kvectors_grid(
     k_ij = torch.cat((k_ij, torch.full_like(k_ij[:, 0:1], 1, device=device)), dim=1)
     xy = k_ij.float() / float(grid_half_width)
 
+    # hexagonal grid: the second axis is at 120 degrees to the first, and indices
+    # with |i - j| <= grid_half_width are inside the hexagon with a tip at (1, 0)
+    xy_hex = torch.stack(
+        (xy[:, 0] - 0.5 * xy[:, 1], xy[:, 1] * (0.5 * 3.0**0.5)), dim=-1
+    )
+    in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
+
     if stnum == 1:  # triclinic 1
         kstar = square_to_hemisphere(xy)
         # add the other hemisphere
@@ -264,12 +271,9 @@ def kvectors_grid(
     elif stnum == 10:  # hexagonal 3
         # keep x >= 0 and y >= 0 in hexagon with SH
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
-        kstar = hexagon_to_hemisphere(xy[mask])
+        mask = mask & in_hex
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
-        kstar = kstar[mask_in_hex]
-        k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
         kstar = torch.cat((kstar, kstar.clone()), dim=0)
         kstar[len(kstar) // 2 :, 2] *= -1
@@ -286,12 +290,9 @@ def kvectors_grid(
             )
         # keep x >= 0 and y >= 0 and x >= y lacks SH
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
-        kstar = hexagon_to_hemisphere(xy[mask])
+        mask = mask & in_hex
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
-        kstar = kstar[mask_in_hex]
-        k_ij = k_ij[mask_in_hex]
     # examining "PGSamplingType" & "getHexvsRho" in EMsoft: case 13 is infeasible
     elif stnum == 13:  # [not implemented: rhombohedral -3], hexagonal 312
         if (sg >= 143) & (sg <= 167) & sg_2nd:
@@ -312,12 +313,9 @@ def kvectors_grid(
             & (k_ij[:, 0] >= (k_ij[:, 1] + 1) // 2)
             & (k_ij[:, 0] <= 2 * k_ij[:, 1])
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        mask = mask & in_hex
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
-        kstar = kstar[mask_in_hex]
-        k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
         kstar = torch.cat((kstar, kstar.clone()), dim=0)
         kstar[len(kstar) // 2 :, 2] *= -1
@@ -326,12 +324,9 @@ def kvectors_grid(
     elif stnum == 15:  # hexagonal 31m, 6
         # keep kj >= 0 and ki >= kj with SH
         mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
-        kstar = hexagon_to_hemisphere(xy[mask])
+        mask = mask & in_hex
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
-        kstar = kstar[mask_in_hex]
-        k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
         kstar = torch.cat((kstar, kstar.clone()), dim=0)
         kstar[len(kstar) // 2 :, 2] *= -1
@@ -352,12 +347,9 @@ def kvectors_grid(
             & (ang >= (torch.pi / 5.9999))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        mask = mask & in_hex
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
-        kstar = kstar[mask_in_hex]
-        k_ij = k_ij[mask_in_hex]
     elif stnum == 17:  # hexagonal -31m, 6/m, -62m
         # keep kj >= 0 and ki >= 0 and xx >= 0 and ang <= pi/3 lacks SH
         xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
@@ -366,12 +358,9 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (ang <= (torch.pi / 3)) & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        mask = mask & in_hex
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
-        kstar = kstar[mask_in_hex]
-        k_ij = k_ij[mask_in_hex]
     elif stnum == 18:  # hexagonal 6mm
         # keep kj >= 0 and ki >= 0 and xx >= 0 and ang <= pi/6 with SH
         xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
@@ -383,12 +372,9 @@ def kvectors_grid(
             & (ang <= (torch.pi / 6.0001))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        mask = mask & in_hex
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
-        kstar = kstar[mask_in_hex]
-        k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
         kstar = torch.cat((kstar, kstar.clone()), dim=0)
         kstar[len(kstar) // 2 :, 2] *= -1
@@ -406,12 +392,9 @@ def kvectors_grid(
             & (ang <= (torch.pi / 6.0001))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        mask = mask & in_hex
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
-        kstar = kstar[mask_in_hex]
-        k_ij = k_ij[mask_in_hex]
     else:
         raise ValueError(f"Sampling type {stnum} not implemented.")
 
-- 
2.43.0


From f91f5231b23fe3c66ab0acfc307be9df6146d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 110/153] fix: sectors of the hexagonal grids of incident
 directions

The classes -3, 32 and -6 need 120 degrees of a hemisphere and got 60, and the
bounding lines at 30 and 60 degrees were excluded by the fudge factors or by
rounding, which left the mirror planes unsampled. The bounds are now exact
conditions on the indices.
---
 ebsdtorch/crystallography/kvectors.py | 49 ++++++---------------------
 1 file changed, 10 insertions(+), 39 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index b30bc3c..7f70e5f 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -288,8 +288,8 @@ def kvectors_grid(
             raise NotImplementedError(
                 "Rhombohedral 32 not implemented: use hexagonal setting."
             )
-        # keep x >= 0 and y >= 0 and x >= y lacks SH
-        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
+        # keep x >= 0 and y >= 0 in hexagon (120 degrees) lacks SH
+        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
         mask = mask & in_hex
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
@@ -337,41 +337,20 @@ def kvectors_grid(
             raise NotImplementedError(
                 "Rhombohedral -3m not implemented: use hexagonal setting."
             )
-        # keep kj >= 0 and ki >= 0 and xx >= 0 ang >= pi/6 lacks SH
-        xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
-        yy = k_ij[:, 1] * (3**0.5) / 2.0
-        ang = torch.atan2(yy, xx)
-        mask = (
-            (k_ij[:, 0] >= 0)
-            & (k_ij[:, 1] >= 0)
-            & (ang >= (torch.pi / 5.9999))
-            & (xx >= 0)
-        )
+        # keep angles of 30 to 90 degrees (both included) lacks SH
+        mask = (k_ij[:, 0] <= 2 * k_ij[:, 1]) & (k_ij[:, 1] <= 2 * k_ij[:, 0])
         mask = mask & in_hex
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
     elif stnum == 17:  # hexagonal -31m, 6/m, -62m
-        # keep kj >= 0 and ki >= 0 and xx >= 0 and ang <= pi/3 lacks SH
-        xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
-        yy = k_ij[:, 1] * (3**0.5) / 2.0
-        ang = torch.atan2(yy, xx)
-        mask = (
-            (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (ang <= (torch.pi / 3)) & (xx >= 0)
-        )
+        # keep angles of 0 to 60 degrees (both included) lacks SH
+        mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
         mask = mask & in_hex
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
     elif stnum == 18:  # hexagonal 6mm
-        # keep kj >= 0 and ki >= 0 and xx >= 0 and ang <= pi/6 with SH
-        xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
-        yy = k_ij[:, 1] * (3**0.5) / 2.0
-        ang = torch.atan2(yy, xx)
-        mask = (
-            (k_ij[:, 0] >= 0)
-            & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
-            & (xx >= 0)
-        )
+        # keep angles of 0 to 30 degrees (both included) with SH
+        mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= 2 * k_ij[:, 1])
         mask = mask & in_hex
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
@@ -382,16 +361,8 @@ def kvectors_grid(
         k_ij = torch.cat((k_ij, k_ij.clone()), dim=0)
         k_ij[len(k_ij) // 2 :, 2] *= -1
     elif stnum == 19:  # hexagonal 6/mmm
-        # keep kj >= 0 and ki >= 0 and xx >= 0 and ang <= pi/6 lacks SH
-        xx = k_ij[:, 0] - 0.5 * k_ij[:, 1]
-        yy = k_ij[:, 1] * (3**0.5) / 2.0
-        ang = torch.atan2(yy, xx)
-        mask = (
-            (k_ij[:, 0] >= 0)
-            & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
-            & (xx >= 0)
-        )
+        # keep angles of 0 to 30 degrees (both included) lacks SH
+        mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= 2 * k_ij[:, 1])
         mask = mask & in_hex
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-- 
2.43.0


From 222f4dfe3f3691d8b8b193f63c251f8f3ebdf001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 111/153] fix: master patterns for several voltages

The absorption of the 000 beam was broadcast over the beams instead of being
indexed by voltage, so any number of voltages but one raised.
---
 ebsdtorch/crystallography/ebsd_master.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 02f248a..e2ad37b 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -278,7 +278,9 @@ def ebsd_master_pattern(
             # form exp_A exactly instead of composing it via Zassenhaus
             A = (
                 dynmat_V[v]
-                + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000))
+                + torch.diag_embed(
+                    torch.complex(2.0 * sg / mlambdas[v], upmod_000[v].expand_as(sg))
+                )
             ) * (1j * torch.pi * mlambdas[v])
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
-- 
2.43.0


From 364957cd5333a40dee3ea0d4b080cd1d323e30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 112/153] fix: master patterns without absorption

The modulus of the absorptive part was a complex zero, which the diagonal of the
structure matrix cannot be built from.
---
 ebsdtorch/crystallography/diffraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index c75ac2d..348ed09 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -339,7 +339,7 @@ def calc_helper_bloch_formalism(
         # complex Ucg = U_g + i Uprime_g = U_g,r-Uprime_g,i + i(U_g,i+Uprime_g,r)
         ucg = pre * torch.complex(ff.real - gg.imag, ff.imag + gg.real)
     else:
-        upmod = torch.zeros_like(ff)
+        upmod = torch.zeros_like(vmod)
         ucg = pre * ff
 
     # cell%mLambda is the relativistic wavelength in the orignal f90 code...
-- 
2.43.0


From 58fca485c1332a600f392e460fa88cb669efc607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 113/153] fix: keep the phase of the scattering matrix without
 absorption

Only the moduli of the Fourier coefficients were used when absorption is
disabled, even with the phase shift requested, which is another crystal.
---
 ebsdtorch/crystallography/diffraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index 348ed09..02924ed 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -597,6 +597,8 @@ def calc_helper_scatter_matrix(
                 1.0 / xg - torch.sin(arg) / xgp,
                 torch.cos(arg) / xgp,
             )
+    elif apply_qg_shift:
+        qg = torch.complex(torch.cos(vphase) / xg, torch.sin(vphase) / xg)
     else:
         qg = torch.complex(1.0 / xg, torch.zeros_like(xg))
 
-- 
2.43.0


From 74b33ea7fba69c63febd49ed2a15aab50ee0d409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 114/153] fix: do not normalise the Monte Carlo weights of the
 caller in place

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index e2ad37b..c46ce66 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -248,7 +248,7 @@ def ebsd_master_pattern(
     hkl_valid_fp = hkl_valid.to(kvectors.dtype)
 
     # normalize mc weights
-    mc_weights /= mc_weights.sum()
+    mc_weights = mc_weights / mc_weights.sum()
 
     # get depths_95 from the Monte Carlo weights
     energy_marginals_1d = mc_weights / mc_weights.sum(dim=1, keepdim=True)
-- 
2.43.0


From b55f5dd37afdfe5cb3c6d3c8033139bebdec4caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 115/153] fix: use the depth step of the master pattern
 integration

The argument was ignored: the wave function was always advanced by 1 nm.
---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index c46ce66..1f9bfcc 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -281,7 +281,7 @@ def ebsd_master_pattern(
                 + torch.diag_embed(
                     torch.complex(2.0 * sg / mlambdas[v], upmod_000[v].expand_as(sg))
                 )
-            ) * (1j * torch.pi * mlambdas[v])
+            ) * (1j * torch.pi * mlambdas[v] * depth_step)
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
             # Initialize accumulated Lgh matrix
-- 
2.43.0


From 69c74867e71abdbe86f457f4106fc849666a9df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 116/153] fix: master patterns of double precision cells

Cells are created in double precision, but the single precision directions could
not be transformed with their structure matrix.
---
 ebsdtorch/crystallography/ebsd_master.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 1f9bfcc..48cfa61 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -225,6 +225,7 @@ def ebsd_master_pattern(
         cell,
         grid_half_width=grid_half_width,
     )  # cartesian space
+    kvectors = kvectors.to(cell.rmt.dtype)
     kvectors = cell.norm_vec(kvectors, "c")  # normalize
     kvectors = kvectors / mlambdas[:, None, None]  # (n_voltages, n_k, 3)
     kvectors = cell.transform_space(kvectors, "c", "r")  # to reciprocal space
@@ -274,6 +275,7 @@ def ebsd_master_pattern(
 
             # manually set sg to zero for hkl 000
             sg[:, 0] = 0.0
+            sg = sg.to(upmod_000.dtype)
 
             # form exp_A exactly instead of composing it via Zassenhaus
             A = (
-- 
2.43.0


From 3fba9d75536e797af6fad22e2895f15dfdc79674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 117/153] fix: interpolation of the exponential integral table

The table is in steps of 1/200, but the offset within a step was computed with a
tenth of that, which left up to 5% of error.
---
 .../scattering_factors/scattering_factors_Hybrid.py             | 2 +-
 .../crystallography/scattering_factors/scattering_factors_WK.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index e10c00a..0668448 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -708,7 +708,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index fd4b1f5..9746f27 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -542,7 +542,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
-- 
2.43.0


From c3fc2ce622a4fdddaa88d31136293e4add3938d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 118/153] fix: exponential integral Ei between 20 and 40

The approximation for arguments above 40 was used from 20 on, where it is off by
up to 1e-6.
---
 .../scattering_factors_Hybrid.py              | 36 +++++++++++++++++--
 .../scattering_factors_WK.py                  | 36 +++++++++++++++++--
 2 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 0668448..c348186 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -642,8 +642,40 @@ def expi(x: Tensor) -> Tensor:
         range3_result = range3_result + x_masked3
         result[mask_range3] = range3_result
 
-    # z > 20
-    mask_range4 = x > 20
+    mask_range5 = (x > 20) & (x <= 40)
+    if mask_range5.any():
+        Y = 1.03937530517578125
+        P = [
+            -0.00356165148914447597995,
+            -0.0229930320357982333406,
+            -0.0449814350482277917716,
+            -0.0453759383048193402336,
+            -0.0272050837209380717069,
+            -0.00994403059883350813295,
+            -0.00207592267812291726961,
+            -0.000192178045857733706044,
+            -0.113161784705911400295e-9,
+        ]
+        Q = [
+            1.0,
+            2.84354408840148561131,
+            3.6599610090072393012,
+            2.75088464344293083595,
+            1.2985244073998398643,
+            0.383213198510794507409,
+            0.0651165455496281337831,
+            0.00488071077519227853585,
+        ]
+
+        x_masked5 = x[mask_range5]
+        t = x_masked5 / 10 - 3
+        range5_result = Y + evaluate_polynomial(P, t) / evaluate_polynomial(Q, t)
+        range5_result = range5_result * torch.exp(x_masked5) / x_masked5
+        range5_result = range5_result + x_masked5
+        result[mask_range5] = range5_result
+
+    # z > 40
+    mask_range4 = x > 40
     if mask_range4.any():
         Y = 1.013065338134765625
         P = [
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 9746f27..31498b2 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -476,8 +476,40 @@ def expi(x: Tensor) -> Tensor:
         range3_result = range3_result + x_masked3
         result[mask_range3] = range3_result
 
-    # z > 20
-    mask_range4 = x > 20
+    mask_range5 = (x > 20) & (x <= 40)
+    if mask_range5.any():
+        Y = 1.03937530517578125
+        P = [
+            -0.00356165148914447597995,
+            -0.0229930320357982333406,
+            -0.0449814350482277917716,
+            -0.0453759383048193402336,
+            -0.0272050837209380717069,
+            -0.00994403059883350813295,
+            -0.00207592267812291726961,
+            -0.000192178045857733706044,
+            -0.113161784705911400295e-9,
+        ]
+        Q = [
+            1.0,
+            2.84354408840148561131,
+            3.6599610090072393012,
+            2.75088464344293083595,
+            1.2985244073998398643,
+            0.383213198510794507409,
+            0.0651165455496281337831,
+            0.00488071077519227853585,
+        ]
+
+        x_masked5 = x[mask_range5]
+        t = x_masked5 / 10 - 3
+        range5_result = Y + evaluate_polynomial(P, t) / evaluate_polynomial(Q, t)
+        range5_result = range5_result * torch.exp(x_masked5) / x_masked5
+        range5_result = range5_result + x_masked5
+        result[mask_range5] = range5_result
+
+    # z > 40
+    mask_range4 = x > 40
     if mask_range4.any():
         Y = 1.013065338134765625
         P = [
-- 
2.43.0


From 5cd685d6be385d8afab92764ab516f2345af7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 119/153] fix: exponential integrals of NaN and infinity

E1 of NaN was uninitialised memory, Ei of NaN was 0 and Ei of infinity NaN.
---
 .../scattering_factors/scattering_factors_Hybrid.py    | 10 +++++-----
 .../scattering_factors/scattering_factors_WK.py        | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index c348186..2a73286 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -446,12 +446,11 @@ def exp1(x: Tensor) -> Tensor:
     This is a PyTorch port of the rational approximation implementation.
 
     """
-    # don't fill tensor to save allocation overhead
-    result = torch.empty_like(x)
+    # arguments outside of the domain (negative or NaN) give NaN
+    result = torch.full_like(x, float("nan"))
 
     # Handle special cases
     result = torch.where(x == 0, torch.tensor(float("inf")), result)
-    result = torch.where(x < 0, torch.tensor(float("nan")), result)
 
     mask_range1 = (x > 0) & (x <= 1)
     if mask_range1.any():
@@ -527,10 +526,11 @@ def expi(x: Tensor) -> Tensor:
     Compute the exponential integral Ei(x) for real x.
     PyTorch implementation with TorchScript support.
     """
-    result = torch.zeros_like(x)
+    result = torch.full_like(x, float("nan"))
 
     # Handle special cases
     result = torch.where(x == 0, torch.tensor(float("-inf")), result)
+    result = torch.where(x == float("inf"), x, result)
     neg_mask = x < 0
     if neg_mask.any():
         result[neg_mask] = -exp1(-x[neg_mask])
@@ -675,7 +675,7 @@ def expi(x: Tensor) -> Tensor:
         result[mask_range5] = range5_result
 
     # z > 40
-    mask_range4 = x > 40
+    mask_range4 = (x > 40) & (x < float("inf"))
     if mask_range4.any():
         Y = 1.013065338134765625
         P = [
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 31498b2..c76f8d9 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -280,12 +280,11 @@ def exp1(x: Tensor) -> Tensor:
     This is a PyTorch port of the rational approximation implementation.
 
     """
-    # don't fill tensor to save allocation overhead
-    result = torch.empty_like(x)
+    # arguments outside of the domain (negative or NaN) give NaN
+    result = torch.full_like(x, float("nan"))
 
     # Handle special cases
     result = torch.where(x == 0, torch.tensor(float("inf")), result)
-    result = torch.where(x < 0, torch.tensor(float("nan")), result)
 
     mask_range1 = (x > 0) & (x <= 1)
     if mask_range1.any():
@@ -361,10 +360,11 @@ def expi(x: Tensor) -> Tensor:
     Compute the exponential integral Ei(x) for real x.
     PyTorch implementation with TorchScript support.
     """
-    result = torch.zeros_like(x)
+    result = torch.full_like(x, float("nan"))
 
     # Handle special cases
     result = torch.where(x == 0, torch.tensor(float("-inf")), result)
+    result = torch.where(x == float("inf"), x, result)
     neg_mask = x < 0
     if neg_mask.any():
         result[neg_mask] = -exp1(-x[neg_mask])
@@ -509,7 +509,7 @@ def expi(x: Tensor) -> Tensor:
         result[mask_range5] = range5_result
 
     # z > 40
-    mask_range4 = x > 40
+    mask_range4 = (x > 40) & (x < float("inf"))
     if mask_range4.any():
         Y = 1.013065338134765625
         P = [
-- 
2.43.0


From 43a05f935dcec64ae7c9336c1208d7243726d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 120/153] fix: scattering vectors of the hybrid scattering
 factors

The hybrid factors multiply the scattering vector by 2 pi themselves, so passing
2 pi g evaluated them 2 pi times too far out.
---
 ebsdtorch/crystallography/diffraction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index 02924ed..c44dd95 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -285,8 +285,9 @@ def calc_helper_bloch_formalism(
             include_phonon=include_phonon,
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
+        # the Hybrid factors take g in 1/angstrom without the 2pi prefactor
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=(0.1 * g_unique).float(),
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
@@ -497,8 +498,9 @@ def calc_helper_scatter_matrix(
             include_phonon=include_phonon,
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
+        # the Hybrid factors take g in 1/angstrom without the 2pi prefactor
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=(0.1 * g_unique).float(),
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
-- 
2.43.0


From 79ddfa228138f6972f3e003df0ffb442469e5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 121/153] fix: phonon absorption at small scattering angles in
 single precision

The terms of the thermal diffuse scattering integral cancel: in single precision
the result was off by tens of percents below 0.01 / angstrom and by its own
multiple below that.
---
 .../scattering_factors/scattering_factors_Hybrid.py    | 10 ++++++++--
 .../scattering_factors/scattering_factors_WK.py        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 2a73286..1028874 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -966,6 +966,12 @@ def scatter_factor_hybrid(
         Fcore = 0.0
 
     if include_phonon:
+        # the terms cancel to below single precision at small scattering angles
+        A = A.double()
+        B = B.double()
+        G = G.double()
+        thermal_sigma = thermal_sigma.double()
+
         # Get indices for the 10 pairs we actually need
         i_idx, j_idx = torch.triu_indices(4, 4, offset=0, device=g.device)
         # Get only the parameter pairs we need
@@ -1067,7 +1073,7 @@ def scatter_factor_hybrid(
         multiplier = torch.where(i_idx == j_idx, 1.0, 2.0).view(1, 1, -1)
 
         # Apply A coefficients and thermal factor
-        result = torch.zeros(N_Z, N_g, 10, dtype=g.dtype, device=g.device)
+        result = torch.zeros(N_Z, N_g, 10, dtype=G.dtype, device=g.device)
         if g_zero.any():
             result[:, g_zero, :] = (
                 multiplier * A_i * A_j * (exp_DW[:, g_zero, :] * I1_0 - I2_0)
@@ -1078,7 +1084,7 @@ def scatter_factor_hybrid(
             )
 
         # Sum over pairs and prepare for broadcasting
-        Fphon = result.sum(dim=-1).view(1, N_Z, N_g)
+        Fphon = result.sum(dim=-1).view(1, N_Z, N_g).to(g.dtype)
     else:
         Fphon = 0.0
 
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index c76f8d9..467c850 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -823,6 +823,12 @@ def scatter_factor_WK(
         Fcore = torch.zeros(N_V, N_Z, N_g, dtype=g.dtype, device=g.device)
 
     if include_phonon:
+        # the terms cancel to below single precision at small scattering angles
+        A = A.double()
+        B = B.double()
+        G = G.double()
+        thermal_sigma = thermal_sigma.double()
+
         # Get indices for the 10 pairs we actually need
         # i_idx, j_idx = torch.triu_indices(ro=4, 4, offset=0, device=g.device)
         i_idx = torch.tensor(
@@ -843,7 +849,7 @@ def scatter_factor_WK(
         exp_DW = torch.exp(-M * G2)  # [N_Z, N_g, 1]
 
         # Apply A coefficients and thermal factor
-        result = torch.zeros(N_Z, N_g, 10, dtype=g.dtype, device=g.device)
+        result = torch.zeros(N_Z, N_g, 10, dtype=G.dtype, device=g.device)
 
         # Combine according to eq 15
         # Create multiplier for i≠j terms (2.0 where i≠j, 1.0 where i=j)
@@ -944,7 +950,7 @@ def scatter_factor_WK(
             )
 
         # Sum over pairs and prepare for broadcasting
-        Fphon = result.sum(dim=-1).view(1, N_Z, N_g)
+        Fphon = result.sum(dim=-1).view(1, N_Z, N_g).to(g.dtype)
     else:
         Fphon = torch.zeros(1, N_Z, N_g, dtype=g.dtype, device=g.device)
 
-- 
2.43.0


From f676181de569ecdae2522194d71a35e4b7c9773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 122/153] fix: one thermal displacement for several elements

A scalar displacement is documented, but only worked with a single element.
---
 .../scattering_factors/scattering_factors_Hybrid.py             | 1 +
 .../scattering_factors/scattering_factors_LVD_TCB.py            | 2 +-
 .../crystallography/scattering_factors/scattering_factors_WK.py | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 1028874..3480beb 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -873,6 +873,7 @@ def scatter_factor_hybrid(
     # Get dimensions
     N_V = len(voltage_kV)
     N_Z = len(Z)
+    thermal_sigma = thermal_sigma.view(-1).expand(N_Z)
     N_g = len(g)
 
     # Prepare g-vector calculations
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index c40e1ca..6290390 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -365,7 +365,7 @@ def scatter_factor_LVD(
 
     S = (g / 2.0).view(-1)  # [N_g]
     Z = Z.view(-1)  # [N_Z]
-    M_vals = (thermal_sigma.view(-1) ** 2.0) * (8 * torch.pi**2)  # [N_Z]
+    M_vals = (thermal_sigma.view(-1).expand(len(Z)) ** 2.0) * (8 * torch.pi**2)  # [N_Z]
 
     N_V = len(voltage_kV)
     N_Z = len(Z)
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 467c850..52e7714 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -706,6 +706,7 @@ def scatter_factor_WK(
     # Get dimensions
     N_V = len(voltage_kV)
     N_Z = len(Z)
+    thermal_sigma = thermal_sigma.view(-1).expand(N_Z)
     N_g = len(g)
 
     # Prepare g-vector calculations
-- 
2.43.0


From 0359b6efef53e56c40482632a2f9b53f6063946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 123/153] fix: integrated scattering factors for several
 voltages and scalars

The wave numbers were broadcast over the scattering angles instead of having the
voltage dimension: an error, or absorption mixed up between voltages.
---
 .../scattering_factors/scattering_factors_LVD_TCB.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index 6290390..aafc852 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -367,9 +367,11 @@ def scatter_factor_LVD(
     Z = Z.view(-1)  # [N_Z]
     M_vals = (thermal_sigma.view(-1).expand(len(Z)) ** 2.0) * (8 * torch.pi**2)  # [N_Z]
 
+    voltage_kV = voltage_kV.view(-1)  # [N_V]
+
     N_V = len(voltage_kV)
     N_Z = len(Z)
-    N_g = len(g)
+    N_g = len(S)
 
     # compute Lorentz factor
     # gamma = 1 + (e*V)/(m_e*c**2) = 1 + V * 1.9569511835738734e-06
@@ -378,6 +380,7 @@ def scatter_factor_LVD(
 
     # Calculate wavelength for each voltage
     k0 = 2.0 * torch.pi / e_wavelength_eV_to_A(1000.0 * voltage_kV)  # [N_V]
+    k0 = k0.view(N_V, 1, 1)
 
     # compute DWF
     dwf = torch.exp(-M_vals.view(-1, 1) * S.view(1, -1) ** 2).view(1, N_Z, N_g)
-- 
2.43.0


From b8bff4c36e27123424cf0328e178bd88c3a1a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 124/153] fix: scattering factors of atoms without thermal
 vibration

The phonon absorption of a zero displacement was NaN.
---
 .../scattering_factors/scattering_factors_Hybrid.py            | 3 +++
 .../scattering_factors/scattering_factors_WK.py                | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 3480beb..661f1eb 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -1084,6 +1084,9 @@ def scatter_factor_hybrid(
                 multiplier * A_i * A_j * (exp_DW[:, g_nonzero, :] * I1_g - I2_g)
             )
 
+        # atoms that do not vibrate do not scatter diffusely (0 * log(0) above)
+        result = torch.where(M == 0, torch.zeros_like(result), result)
+
         # Sum over pairs and prepare for broadcasting
         Fphon = result.sum(dim=-1).view(1, N_Z, N_g).to(g.dtype)
     else:
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 52e7714..3b725f2 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -950,6 +950,9 @@ def scatter_factor_WK(
                 multiplier * A_i * A_j * (exp_DW[:, g_nonzero, :] * I1_g - I2_g)
             )
 
+        # atoms that do not vibrate do not scatter diffusely (0 * log(0) above)
+        result = torch.where(M == 0, torch.zeros_like(result), result)
+
         # Sum over pairs and prepare for broadcasting
         Fphon = result.sum(dim=-1).view(1, N_Z, N_g).to(g.dtype)
     else:
-- 
2.43.0


From ba3c5064dde2778089fc2fd06f439c70d5960033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 125/153] fix: step of the elastic scattering factors at small
 angles

The series for small arguments was used up to 0.1, where it is 0.2% off, so that
the factor jumped upwards with increasing scattering angle.
---
 .../scattering_factors/scattering_factors_WK.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 3b725f2..9eab2a1 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -736,14 +736,14 @@ def scatter_factor_WK(
     S = S.view(1, N_g, 1)  # [1, N_g, 1]
     argu = B.view(N_Z, 1, 4) * S**2  # [N_Z, N_g, 4]
     term1 = A.view(N_Z, 1, 4) * B.view(N_Z, 1, 4) * (1.0 - 0.5 * argu)
-    term2 = A.view(N_Z, 1, 4) * (1.0 - torch.exp(-argu)) / S**2
+    term2 = A.view(N_Z, 1, 4) * (-torch.expm1(-argu)) / S**2
     term3 = A.view(N_Z, 1, 4) / S**2
 
     # don't multiply by DWF here yet
     # don't include extra 4.0 * torch.pi factor like WK
     f_real = (
         torch.where(
-            argu < 0.1,
+            argu < 1.0e-3,
             term1,
             torch.where(
                 argu <= 20.0,
-- 
2.43.0


From 7b2086adc8a50392add86e7d3ca56badc478a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 126/153] fix: overflow of the integrated scattering factors

At large scattering angles and displacements the integrand overflowed before the
Debye-Waller factor was multiplied in, which gave NaN in single precision.
---
 .../scattering_factors/scattering_factors_LVD_TCB.py      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index aafc852..cca07b2 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -216,8 +216,12 @@ def integrand(
     s1 = torch.sqrt((s / 2 + sx) ** 2 + sy**2)
     s2 = torch.sqrt((s / 2 - sx) ** 2 + sy**2)
     s_square = sx**2 + sy**2 - (s**2 / 4)
+    # the Debye-Waller factor is included here, as the second exponential overflows
+    # on its own
     result = (
-        eval_LVD_fit(Z, s1) * eval_LVD_fit(Z, s2) * (1 - torch.exp(-2 * M * s_square))
+        eval_LVD_fit(Z, s1)
+        * eval_LVD_fit(Z, s2)
+        * (torch.exp(-M * s**2) - torch.exp(-2 * M * s_square - M * s**2))
     )
     return result
 
@@ -467,7 +471,7 @@ def scatter_factor_LVD(
 
         # Bird's elegant change of variables introduces 4-fold symmetry that
         # we leveraged integrating over (0, inf) instead of (-inf, inf)
-        f_imag = 4.0 * vals * dwf
+        f_imag = 4.0 * vals
 
         # # negative fprime is non-physical (amplification instead of attenuation)
         # f_imag = torch.clamp(f_imag, min=0.0)
-- 
2.43.0


From f18eca9121f1889176fdc080e34fb63a8d631e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 127/153] fix: read master patterns of crystals with several
 atomic sites

The first dimension of the stored patterns is the atomic site. With more than one
site the energy weights were applied along it and the file could not be read.
---
 ebsdtorch/io/read_master_pattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/io/read_master_pattern.py b/ebsdtorch/io/read_master_pattern.py
index afc9377..6426f4c 100644
--- a/ebsdtorch/io/read_master_pattern.py
+++ b/ebsdtorch/io/read_master_pattern.py
@@ -21,12 +21,12 @@ def read_master_pattern(file_path) -> MasterPattern:
 
         # load in the actual master patterns per energy
         # mLPNH = modified Lambert projection of North hemisphere
-        # this will be (1, n_energies, H, W) shaped
+        # this will be (n_sites, n_energies, H, W) shaped: add up the atomic sites
         north_master_patterns = (
-            f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32).squeeze()
+            f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32).sum(axis=0)
         )
         south_master_patterns = (
-            f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32).squeeze()
+            f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32).sum(axis=0)
         )
 
         # load the space group number to have the Laue group
-- 
2.43.0


From ee7f88690c4aca27fbb606a57a02ef0bffd67a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 128/153] fix: the progress bar writes its last line to its
 sink

The final line break went to the standard output whatever the destination.
---
 ebsdtorch/utils/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/progressbar.py b/ebsdtorch/utils/progressbar.py
index 4d7b34c..f3a8254 100644
--- a/ebsdtorch/utils/progressbar.py
+++ b/ebsdtorch/utils/progressbar.py
@@ -53,4 +53,4 @@ def progressbar(it, prefix="", prefix_min_length=15, size=60, out=sys.stdout):
             file=out,
             flush=True,
         )
-    print("\n")
+    print("\n", file=out)
-- 
2.43.0


From c2cc0d6a34710d8a72920b5f4c92df7fcb12017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 129/153] fix: factorisation of Carmichael numbers

The Fermat test usually takes Carmichael numbers without small factors (56052361)
for primes. Also leave the global random state alone.
---
 ebsdtorch/utils/factorize.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/factorize.py b/ebsdtorch/utils/factorize.py
index ca27503..4513f55 100644
--- a/ebsdtorch/utils/factorize.py
+++ b/ebsdtorch/utils/factorize.py
@@ -34,9 +34,26 @@ def FactorECM(N0):
             factors.append(x)
         return sorted(factors)
 
-    def is_probably_prime_fermat(n, trials=32):
+    # own generator: neither use nor advance the global random state
+    rng = random.Random(N0)
+
+    def is_probably_prime_miller_rabin(n, trials=32):
+        if n % 2 == 0:
+            return False
+        d = n - 1
+        s = 0
+        while d % 2 == 0:
+            d //= 2
+            s += 1
         for _ in range(trials):
-            if pow(random.randint(2, n - 2), n - 1, n) != 1:
+            x = pow(rng.randint(2, n - 2), d, n)
+            if x == 1 or x == n - 1:
+                continue
+            for _ in range(s - 1):
+                x = x * x % n
+                if x == n - 1:
+                    break
+            else:
                 return False
         return True
 
@@ -99,11 +116,11 @@ def FactorECM(N0):
         if N < (1 << 16):
             return factor_trial_division(N)
 
-        if is_probably_prime_fermat(N):
+        if is_probably_prime_miller_rabin(N):
             return [N]
 
         while True:
-            X, Y, A = [random.randrange(N) for _ in range(3)]
+            X, Y, A = [rng.randrange(N) for _ in range(3)]
             B = (Y**2 - X**3 - A * X) % N
             if 4 * A**3 - 27 * B**2 != 0:
                 break
-- 
2.43.0


From fb36969449057d761d5e6a6603ce51f69baa1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 130/153] fix: leave the choice of the OpenCL device to the
 user

Importing the module overwrote PYOPENCL_CTX. Without the variable the context is
chosen without asking, as before.
---
 ebsdtorch/crystallography/ebsd_mc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index edef688..cbc75e4 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -1,13 +1,10 @@
 import numpy as np
 from typing import Dict, Any
-import os
 import torch
 import numpy as np
 from typing import Dict, Optional, Tuple
 from ebsdtorch.crystallography.unit_cell import Cell
 
-# Set the PYOPENCL_CTX environment variable
-os.environ["PYOPENCL_CTX"] = "0"
 
 try:
     import pyopencl as cl
@@ -193,7 +190,7 @@ __kernel void bse_sim_mc(
 
 class OpenCLMonteCarlo:
     def __init__(self, params: Dict[str, Any]):
-        self.ctx = cl.create_some_context()
+        self.ctx = cl.create_some_context(interactive=False)
         self.queue = cl.CommandQueue(self.ctx)
         self.program = cl.Program(self.ctx, EBSD_MC_KERNEL).build()
 
-- 
2.43.0


From da96397ea707e52f8f02ea381b6e97bb93a30e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:58 +0000
Subject: [PATCH 131/153] fix: misorientation functions accept empty and
 strided batches

reshape(N, -1, 4) is ambiguous when N is 0, and view() needs contiguous memory.
---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 8 ++++----
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index 5dc397e..057491e 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -54,11 +54,11 @@ def misori_to_fz_laue(qu: Tensor, laue_id_1: int, laue_id_2: int):
     # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
     equivalent_quaternions = qu_prod(
         laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(qu.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        qu_prod(qu.reshape(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -127,7 +127,7 @@ def disorientation_naive(
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -195,7 +195,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     )
 
     # flatten along the laue group dimensions
-    equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
+    equivalent_quat_pos_real = equivalent_quat_pos_real.flatten(1, 2)
 
     # find the largest real part magnitude and return the angle
     # (rounding can push the real part of equivalent orientations above one)
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 5b93c49..a009143 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -395,7 +395,7 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -463,7 +463,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     )
 
     # flatten along the laue group dimensions
-    equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
+    equivalent_quat_pos_real = equivalent_quat_pos_real.flatten(1, 2)
 
     # find the largest real part magnitude and return the angle
     # (rounding can push the real part of equivalent orientations above one)
-- 
2.43.0


From 144f5f1ef25ae2393ac55bd514a6f90a5f3171b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 132/153] fix: orientation colours for any batch shape

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index a009143..96f9b09 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -573,11 +573,11 @@ def ori_color_laue(
     reference_direction_moved_fz = s2_to_fz_laue(reference_direction_moved, laue_id)
 
     theta_phi = xyz_to_theta_phi(reference_direction_moved_fz)  # INCORRECT!!!
-    theta_phi[:, 0] = theta_phi[:, 0] * 2.0 + 0.5
+    theta_phi[..., 0] = theta_phi[..., 0] * 2.0 + 0.5
 
-    angle = torch.fmod(theta_phi[:, 0] / (2.0 * torch.pi), 1.0)
+    angle = torch.fmod(theta_phi[..., 0] / (2.0 * torch.pi), 1.0)
 
-    hsl = torch.stack((angle, torch.ones_like(angle), theta_phi[:, 1]), dim=-1)
+    hsl = torch.stack((angle, torch.ones_like(angle), theta_phi[..., 1]), dim=-1)
 
     l2 = hsl[..., 2] * 2.0
     s2 = hsl[..., 1] * torch.where(l2 <= 1.0, l2, 2.0 - l2)
@@ -602,11 +602,11 @@ def ori_color_laue(
     m4 = h6_byte == 4
     m5 = h6_byte == 5
 
-    output[m0] = torch.stack((hsv[m0, 2], t[m0], p[m0]), dim=-1)
-    output[m1] = torch.stack((q[m1], hsv[m1, 2], p[m1]), dim=-1)
-    output[m2] = torch.stack((p[m2], hsv[m2, 2], t[m2]), dim=-1)
-    output[m3] = torch.stack((p[m3], q[m3], hsv[m3, 2]), dim=-1)
-    output[m4] = torch.stack((t[m4], p[m4], hsv[m4, 2]), dim=-1)
-    output[m5] = torch.stack((hsv[m5, 2], p[m5], q[m5]), dim=-1)
+    output[m0] = torch.stack((hsv[..., 2][m0], t[m0], p[m0]), dim=-1)
+    output[m1] = torch.stack((q[m1], hsv[..., 2][m1], p[m1]), dim=-1)
+    output[m2] = torch.stack((p[m2], hsv[..., 2][m2], t[m2]), dim=-1)
+    output[m3] = torch.stack((p[m3], q[m3], hsv[..., 2][m3]), dim=-1)
+    output[m4] = torch.stack((t[m4], p[m4], hsv[..., 2][m4]), dim=-1)
+    output[m5] = torch.stack((hsv[..., 2][m5], p[m5], q[m5]), dim=-1)
 
     return (output * 255.0).byte()
-- 
2.43.0


From 454b6dd9640d7efdefa3f82c58f1a3b0a458c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 133/153] fix: bruker_geometry_to_SE3 keeps the batch shape

---
 ebsdtorch/ebsd/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index a066e17..0dbcc6a 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -70,7 +70,7 @@ def bruker_geometry_to_SE3(
             -torch.sin(dt_m_sy) * torch.cos(sx),
         ],
         dim=-1,
-    ).view(-1, 3, 3)
+    ).unflatten(-1, (3, 3))
 
     tx = (
         pcx * cols * torch.sin(sx) * torch.cos(dt_m_sy)
-- 
2.43.0


From de886170e1116a817d497f47d77242252acbcfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 134/153] fix: factorising zero does not run out of memory

---
 ebsdtorch/utils/factorize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/factorize.py b/ebsdtorch/utils/factorize.py
index 4513f55..a5e0f04 100644
--- a/ebsdtorch/utils/factorize.py
+++ b/ebsdtorch/utils/factorize.py
@@ -21,6 +21,9 @@ Also useful for finding special bandwidth numbers for FFTs on SO(3).
 
 
 def FactorECM(N0):
+    if N0 < 1:
+        raise ValueError(f"Only positive integers can be factorised, got {N0}")
+
     def factor_trial_division(x):
         factors = []
         while (x & 1) == 0:
-- 
2.43.0


From e1b5a777a44ec16cdd245bf3fa9413619884de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 135/153] fix: interpolation of an empty batch of directions

---
 ebsdtorch/ebsd/master_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 41d83b9..60d463a 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -213,7 +213,8 @@ class MasterPattern(Module):
         if n_elem in self.factor_dict:
             H_pseudo, W_pseudo = self.factor_dict[n_elem]
         else:
-            H_pseudo, W_pseudo = nearly_square_factors(n_elem)
+            # an empty batch has no factors
+            H_pseudo, W_pseudo = nearly_square_factors(n_elem) if n_elem > 0 else (0, 1)
             if len(self.factor_dict) > 100:
                 self.factor_dict = {}
             self.factor_dict[n_elem] = H_pseudo, W_pseudo
-- 
2.43.0


From aa3c702b176f83f20af23eecc2f0f1481828b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 136/153] fix: refinement of patterns in any memory layout

---
 ebsdtorch/ebsd/refining.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 58c6d47..6266cd3 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -169,7 +169,7 @@ def orientation_grid_refinement(
             )
 
             # reshape from (N_EXP_PATS, H, W) to (N_EXP_PATS, H*W)
-            exp_pats = exp_pats.view(exp_pats.shape[0], -1)
+            exp_pats = exp_pats.reshape(exp_pats.shape[0], -1)
 
             # subtract the mean from the patterns
             exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
@@ -320,7 +320,7 @@ def orientation_grad_refinement(
             )
 
             # reshape from (N_EXP_PATS, H, W) to (N_EXP_PATS, H*W)
-            exp_pats = exp_pats.view(exp_pats.shape[0], -1)
+            exp_pats = exp_pats.reshape(exp_pats.shape[0], -1)
 
             # subtract the mean from the patterns
             exp_pats = exp_pats - torch.mean(exp_pats, dim=-1, keepdim=True)
-- 
2.43.0


From 08780bbe2a44c87839b79dc84d514af65ec812bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 137/153] fix: processing a scan does not overwrite the
 caller's patterns

The scan keeps a view of the tensor it is given, so in-place arithmetic also changed
the caller's data. It also failed on expanded tensors.
---
 ebsdtorch/ebsd/experiment_pats.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 82f79ed..e0f3212 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -233,7 +233,7 @@ class ExperimentPatterns(Module):
         """
 
         # subtract the mean of each pixel from all patterns
-        self.patterns -= torch.mean(self.patterns, dim=0, keepdim=True)
+        self.patterns = self.patterns - torch.mean(self.patterns, dim=0, keepdim=True)
 
     def contrast_enhance_clahe(
         self,
@@ -269,17 +269,17 @@ class ExperimentPatterns(Module):
 
         """
 
-        self.patterns = self.patterns.view(self.n_patterns, -1)
+        self.patterns = self.patterns.reshape(self.n_patterns, -1)
         if norm_type == "minmax":
             pat_mins = torch.min(self.patterns, dim=-1).values
             pat_maxs = torch.max(self.patterns, dim=-1).values
-            self.patterns -= pat_mins[..., None]
-            self.patterns /= 1e-4 + pat_maxs[..., None] - pat_mins[..., None]
+            self.patterns = self.patterns - pat_mins[..., None]
+            self.patterns = self.patterns / (1e-4 + pat_maxs - pat_mins)[..., None]
         elif norm_type == "zeromean":
-            self.patterns -= torch.mean(self.patterns, dim=-1, keepdim=True)
+            self.patterns = self.patterns - torch.mean(self.patterns, dim=-1, keepdim=True)
         elif norm_type == "standard":
-            self.patterns -= torch.mean(self.patterns, dim=-1, keepdim=True)
-            self.patterns /= torch.std(self.patterns, dim=-1, keepdim=True)
+            self.patterns = self.patterns - torch.mean(self.patterns, dim=-1, keepdim=True)
+            self.patterns = self.patterns / torch.std(self.patterns, dim=-1, keepdim=True)
         else:
             raise ValueError(
                 f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
-- 
2.43.0


From e13e325359edf75feee5f5543f6631a4d81504f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 138/153] fix: eight-bit search leaves the random number
 generator alone

---
 ebsdtorch/utils/knn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index 4d585ae..c0109b2 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -29,6 +29,7 @@ of the dictionary in image space.
 from typing import Tuple
 import torch
 from torch.nn import Linear, Module
+from torch.nn.utils import skip_init
 from torch import Tensor
 from torch.ao.quantization import quantize_dynamic
 
@@ -43,7 +44,8 @@ class LinearLayer(Module):
 
     def __init__(self, in_dim: int, out_dim: int):
         super(LinearLayer, self).__init__()
-        self.fc = Linear(in_dim, out_dim, bias=False)
+        # the weights are replaced: do not draw random ones
+        self.fc = skip_init(Linear, in_dim, out_dim, bias=False)
 
     def forward(self, inp: Tensor) -> Tensor:
         return self.fc(inp)
-- 
2.43.0


From ae79049e6acac7caaaf45417ce2cb8cdd31f6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 139/153] fix: indexing of patterns in any memory layout

---
 ebsdtorch/ebsd/indexing.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 11cd289..8baeb0f 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -130,7 +130,7 @@ def dictionary_index_orientations(
             ).squeeze()
 
             # flatten simulated patterns to (n_ori, H*W)
-            simulated_patterns = simulated_patterns.view(len(ori_batch), -1)
+            simulated_patterns = simulated_patterns.reshape(len(ori_batch), -1)
 
             # apply the signal mask if provided
             if signal_mask is not None:
@@ -155,7 +155,7 @@ def dictionary_index_orientations(
                 exp_pats = experiment_patterns.get_patterns(
                     torch.arange(experiment_patterns.n_patterns),
                     binning=virtual_binning,
-                ).view(experiment_patterns.n_patterns, -1)
+                ).reshape(experiment_patterns.n_patterns, -1)
 
                 # query all the experiment patterns
                 # first apply the signal mask if provided
@@ -182,7 +182,7 @@ def dictionary_index_orientations(
                     query_chunk = experiment_patterns.get_patterns(
                         exp_pat_batch_indices,
                         binning=virtual_binning,
-                    ).view(len(exp_pat_batch_indices), -1)
+                    ).reshape(len(exp_pat_batch_indices), -1)
 
                     # apply the signal mask if provided
                     if signal_mask is not None:
@@ -197,7 +197,7 @@ def dictionary_index_orientations(
 
                     # query the KNN object
                     knn.query_chunk(
-                        query_chunk.view(len(query_chunk), -1),
+                        query_chunk.reshape(len(query_chunk), -1),
                         query_start=exp_pat_batch_indices[0],
                     )
 
@@ -347,7 +347,7 @@ def pca_dictionary_index_orientations(
             ).squeeze()
 
             # flatten simulated patterns to (n_ori, H*W)
-            simulated_patterns = simulated_patterns.view(len(ori_batch), -1)
+            simulated_patterns = simulated_patterns.reshape(len(ori_batch), -1)
 
             # must remove mean from each simulated pattern
             simulated_patterns = simulated_patterns - torch.mean(
@@ -400,7 +400,7 @@ def pca_dictionary_index_orientations(
             ).squeeze()
 
             # flatten simulated patterns to (n_ori, H*W)
-            simulated_patterns = simulated_patterns.view(len(ori_batch), -1)
+            simulated_patterns = simulated_patterns.reshape(len(ori_batch), -1)
 
             # must remove mean from each simulated pattern
             simulated_patterns = simulated_patterns - torch.mean(
@@ -425,7 +425,7 @@ def pca_dictionary_index_orientations(
                 exp_pats = experiment_patterns.get_patterns(
                     torch.arange(experiment_patterns.n_patterns),
                     binning=virtual_binning,
-                ).view(experiment_patterns.n_patterns, -1)
+                ).reshape(experiment_patterns.n_patterns, -1)
                 # query all the experiment patterns
                 # first apply the signal mask if provided
                 if signal_mask is not None:
@@ -456,7 +456,7 @@ def pca_dictionary_index_orientations(
                     query_chunk = experiment_patterns.get_patterns(
                         exp_pat_batch_indices,
                         binning=virtual_binning,
-                    ).view(len(exp_pat_batch_indices), -1)
+                    ).reshape(len(exp_pat_batch_indices), -1)
 
                     # apply the signal mask if provided
                     if signal_mask is not None:
@@ -474,7 +474,7 @@ def pca_dictionary_index_orientations(
 
                     # query the KNN object
                     knn.query_chunk(
-                        query_chunk.view(len(query_chunk), -1),
+                        query_chunk.reshape(len(query_chunk), -1),
                         query_start=exp_pat_batch_indices[0],
                     )
 
-- 
2.43.0


From 22faeee0df57652ae9690d54dc7a8e52b98268c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 140/153] fix: binned mutual information of images in any
 memory layout

---
 ebsdtorch/utils/mutual_information.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 67cc9c4..356d0ef 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -177,8 +177,8 @@ def binned_nmi(
         exclude_lowest_bin: If True, the lowest bin will be excluded from the calculation.
     """
 
-    x = x.view(-1)
-    y = y.view(-1)
+    x = x.reshape(-1)
+    y = y.reshape(-1)
 
     # the highest bin includes its upper edge
     x_binned = torch.floor(x * binsx).clamp(max=binsx - 1)
-- 
2.43.0


From 477d3455353f2f8cc3b1dd6bceece58b697e7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 141/153] fix: axis and homochoric vector of an identity
 quaternion rounded below one

---
 ebsdtorch/s2_and_so3/orientations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 49255b3..86bdd7c 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -44,8 +44,9 @@ def qu2ho(qu: Tensor) -> Tensor:
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
     unit = torch.where(qu[..., 0:1] < 0, -unit, unit)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
-    # fix the case where the angle is zero
+    # fix the case where the angle or the vector part is zero
     ho[(angle.squeeze(-1) < 1e-8)] = 0.0
+    ho[torch.norm(qu[..., 1:], dim=-1) == 0] = 0.0
     return ho
 
 
@@ -749,7 +750,7 @@ def qu2ax(qu: Tensor) -> Tensor:
     ax[..., 3] = angle
 
     # fix identity quaternions to be about z axis
-    mask_identity = angle == 0.0
+    mask_identity = (angle == 0.0) | (torch.norm(qu[..., 1:], dim=-1) == 0)
     ax[..., 0][mask_identity] = 0.0
     ax[..., 1][mask_identity] = 0.0
     ax[..., 2][mask_identity] = 1.0
-- 
2.43.0


From 8b3cfd2abeb1ed10a2b468f65970921d7446f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:37 +0000
Subject: [PATCH 142/153] fix: one constant pattern made the pattern center fit
 not a number

---
 ebsdtorch/ebsd/fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index c7ae8f3..b636c42 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -398,7 +398,10 @@ def spatial_fft_pc_fitter(
 
     # (not in place, the patterns belong to the caller)
     patterns = patterns - patterns.amin(dim=(-2, -1), keepdim=True)
-    patterns = patterns / patterns.amax(dim=(-2, -1), keepdim=True)
+    # (a constant pattern has no range, it becomes zero and matches nothing)
+    patterns = patterns / patterns.amax(dim=(-2, -1), keepdim=True).clamp(
+        min=torch.finfo(patterns.dtype).tiny
+    )
 
     if metric == "dot":
         patterns = patterns - patterns.mean(dim=(-2, -1), keepdim=True)
-- 
2.43.0


From 32918ed71c92df76a6b5cb9d6f2a1b6177be419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:37 +0000
Subject: [PATCH 143/153] fix: equal scores in the pattern center fit depended
 on the batch size

---
 ebsdtorch/ebsd/fitting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index b636c42..1d8dc23 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -528,14 +528,15 @@ def spatial_fft_pc_fitter(
             # need to max-reduce over the D batch dimension and track which orientation won
             batch_values, batch_indices = torch.max(dots_full, dim=0)
 
-            best_dots[z_idx] = torch.maximum(best_dots[z_idx], batch_values)
-
+            # equal scores keep the first orientation, for every batch size
             best_orientations[z_idx] = torch.where(
-                best_dots[z_idx] == batch_values,
+                batch_values > best_dots[z_idx],
                 batch_indices + j,
                 best_orientations[z_idx],
             )
 
+            best_dots[z_idx] = torch.maximum(best_dots[z_idx], batch_values)
+
             sync()
 
         # print(f"Current best point: {best_dots.mean(dim=1).max().item()}")
-- 
2.43.0


From 72de4266a8a42d263c9659ac2e452e762230606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:39 +0000
Subject: [PATCH 144/153] fix: inverse harmonic transforms raised on
 coefficients that are a view

---
 ebsdtorch/harmonics/sht.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht.py b/ebsdtorch/harmonics/sht.py
index 3857458..435132c 100644
--- a/ebsdtorch/harmonics/sht.py
+++ b/ebsdtorch/harmonics/sht.py
@@ -280,7 +280,7 @@ class DLT(Module):
         L, b = self.L, Psi.size()[0]
 
         psiHat = torch.mm(
-            Psi.view(b, -1),
+            Psi.reshape(b, -1),
             self.D,
         ).reshape(b, 2 * L - 1, 2 * L)
 
@@ -443,7 +443,7 @@ class RDLT(Module):
         L, b = self.L, Psi.size()[0]
 
         psiHat = torch.mm(
-            Psi.view(b, -1),
+            Psi.reshape(b, -1),
             self.D,
         ).reshape(b, L, 2 * L)
 
-- 
2.43.0


From 7186d9dd32e8bf9ea704a15855898137a6509b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 145/153] fix: half turns in double precision had the angle pi
 of single precision

---
 ebsdtorch/s2_and_so3/orientations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 86bdd7c..1fdf8c2 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -695,7 +695,8 @@ def ro2ax(ro: Tensor) -> Tensor:
 
     mask_inf_ro = torch.isinf(ro[..., 3])
     ax[..., :3][mask_inf_ro] = ro[..., :3][mask_inf_ro]
-    ax[..., 3][mask_inf_ro] = torch.pi
+    # (assigning the number would round it to single precision)
+    ax[..., 3] = torch.where(mask_inf_ro, torch.pi, ax[..., 3])
 
     mask_else = ~(mask_zero_ro | mask_inf_ro)
     ax[..., :3][mask_else] = ro[..., :3][mask_else] / torch.norm(
@@ -823,7 +824,8 @@ def qu2bu(qu: Tensor) -> Tensor:
         2 * qu[..., 1][mB] * qu[..., 2][mB],
         qu[..., 1][mB] ** 2 - qu[..., 2][mB] ** 2,
     )
-    bu[..., 1][mB] = torch.pi
+    # (assigning the number would round it to single precision)
+    bu[..., 1] = torch.where(mB, torch.pi, bu[..., 1])
     bu[..., 2][mB] = 0
 
     bu[..., 0][mC] = torch.atan2(
-- 
2.43.0


From 53cedb80c38763ca797b0bc81ace3f759bb7f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:02 +0000
Subject: [PATCH 146/153] fix: extended-exponent Wigner d lookup read wrong
 entries for negative orders

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 33 +++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 2dd8239..bd4a6c8 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -561,10 +561,31 @@ def retrieve_wigner_d(
     m_new = torch.where(mask_mn_swap, n, m)
     n_new = torch.where(mask_mn_swap, m, n)
 
-    prefactor = torch.where(
-        mask_mn_swap,
-        (-1.0) ** ((m_new - n_new) % 2),
-        1.0,
+    both_neg_mask = (m_new < 0) & (n_new < 0)
+    only_m_neg_mask = (m_new < 0) & (n_new >= 0)
+    only_n_neg_mask = (n_new < 0) & (m_new >= 0)
+
+    prefactor = (
+        torch.where(
+            both_neg_mask,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_m_neg_mask,
+            (-1.0) ** ((l - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_n_neg_mask,
+            (-1.0) ** ((l + m_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            mask_mn_swap,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
     )
 
     if swap_mn:
@@ -572,7 +593,9 @@ def retrieve_wigner_d(
 
     return (
         wigner_d_values[
-            (((l * (l + 1)) // 2 * (l + 2)) // 3) + ((m_new * (m_new + 1)) // 2) + n_new
+            (((l * (l + 1)) // 2 * (l + 2)) // 3)
+            + ((torch.abs(m_new) * (torch.abs(m_new) + 1)) // 2)
+            + torch.abs(n_new)
         ]
         * prefactor
     )
-- 
2.43.0


From b47c1117763ce85057497e2e5ef0181c486207ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:49 +0000
Subject: [PATCH 147/153] fix: cross mutual information rejected stacks of
 images cut out of larger ones

---
 ebsdtorch/utils/mutual_information.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 356d0ef..ee98443 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -383,8 +383,8 @@ def cmif(
     #     images_src.view(src_data_shape + (-1,)).max(dim=-1).values[..., None, None]
     # )
 
-    images_dst = images_dst.view(-1, 1, h1, w1)
-    images_src = images_src.view(-1, 1, h1, w1)
+    images_dst = images_dst.reshape(-1, 1, h1, w1)
+    images_src = images_src.reshape(-1, 1, h1, w1)
 
     # (the highest bin includes its upper edge)
     dst_levels = (bins_dst * images_dst).clamp(max=bins_dst - 1).byte()
@@ -409,12 +409,12 @@ def cmif(
     if dst_ind is None:
         dst_ind = torch.ones_like(images_dst)
     else:
-        dst_ind = dst_ind.view(-1, 1, h1, w1)
+        dst_ind = dst_ind.reshape(-1, 1, h1, w1)
 
     if src_ind is None:
         src_ind = torch.ones_like(images_src)
     else:
-        src_ind = src_ind.view(-1, 1, h1, w1)
+        src_ind = src_ind.reshape(-1, 1, h1, w1)
 
     # only the pixels within the masks count
     dst_levels = dst_levels * dst_ind
-- 
2.43.0


From c47a63288a8f9877b9453e6527cf1d6833cd5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:05 +0000
Subject: [PATCH 148/153] fix: rotating short vectors by quaternions lost them
 in rounding

---
 ebsdtorch/s2_and_so3/quaternions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index c2cfff4..3bf16d7 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -204,10 +204,11 @@ def qu_apply(qu: Tensor, point: Tensor) -> Tensor:
 
     # need qu_prod_axis(qu_prod_raw(qu, point_as_quaternion), qu_conj(qu))
     # do qu_prod_raw(qu, point_as_quaternion) first to get intermediate values
-    iw = aw - ax * bx - ay * by - az * bz
-    ix = aw * bx + ax + ay * bz - az * by
-    iy = aw * by - ax * bz + ay + az * bx
-    iz = aw * bz + ax * by - ay * bx + az
+    # (the point has no real part: any other would only add rounding to short vectors)
+    iw = -ax * bx - ay * by - az * bz
+    ix = aw * bx + ay * bz - az * by
+    iy = aw * by - ax * bz + az * bx
+    iz = aw * bz + ax * by - ay * bx
 
     # next qu_prod_axis(qu_prod_raw(qu, point_as_quaternion), qu_conj(qu))
     ox = -iw * ax + ix * aw - iy * az + iz * ay
-- 
2.43.0


From 9fbad1fee01d5afc0b0e0ab335546a2b5bcc92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 149/153] fix: homochoric conversions in double precision used
 single precision coefficients

---
 ebsdtorch/s2_and_so3/orientations.py | 157 ++++++++++++---------------
 1 file changed, 72 insertions(+), 85 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 1fdf8c2..a43b117 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -415,46 +415,40 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
     cosine of the half rotation angle.
 
     """
+    # plain numbers: TorchScript builds tensors from a list in the default dtype,
+    # which would round them to single precision
     if ho.dtype == torch.float32 or ho.dtype == torch.float16:
-        fit_parameters = torch.tensor(
-            [
-                # 8 terms to reach FP32 machine eps
-                1.0000000000000009e00,
-                -4.9999943403867775e-01,
-                -2.5015165060149020e-02,
-                -3.8120131548551729e-03,
-                -1.2106188330642162e-03,
-                4.9329295993155416e-04,
-                -7.0089385526450620e-04,
-                3.0979774923589078e-04,
-                -7.3023474963298843e-05,
-            ],
-            dtype=ho.dtype,
-            device=ho.device,
-        ).to(ho.dtype)
+        fit_parameters = [
+            # 8 terms to reach FP32 machine eps
+            1.0000000000000009e00,
+            -4.9999943403867775e-01,
+            -2.5015165060149020e-02,
+            -3.8120131548551729e-03,
+            -1.2106188330642162e-03,
+            4.9329295993155416e-04,
+            -7.0089385526450620e-04,
+            3.0979774923589078e-04,
+            -7.3023474963298843e-05,
+        ]
 
     else:
         # 10 term loss mean abs error 5e-10 instead of 15 term's 1e-11
         # 1 iteration of Newton's method is needed for double precision
         # machine error... 20 terms somehow is stuck at 1e-11 error
-        fit_parameters = torch.tensor(
-            [
-                # 10 term polyfit
-                1.0000000000000000e00,
-                -4.9999997124013285e-01,
-                -2.5001181866044025e-02,
-                -3.9144209820521038e-03,
-                -8.9320268104539483e-04,
-                3.1181024286083695e-05,
-                -4.3961032788396477e-04,
-                3.9657471727506439e-04,
-                -2.6379945050586932e-04,
-                9.1185355979587159e-05,
-                -1.4875867805692529e-05,
-            ],
-            dtype=ho.dtype,
-            device=ho.device,
-        ).to(ho.dtype)
+        fit_parameters = [
+            # 10 term polyfit
+            1.0000000000000000e00,
+            -4.9999997124013285e-01,
+            -2.5001181866044025e-02,
+            -3.9144209820521038e-03,
+            -8.9320268104539483e-04,
+            3.1181024286083695e-05,
+            -4.3961032788396477e-04,
+            3.9657471727506439e-04,
+            -2.6379945050586932e-04,
+            9.1185355979587159e-05,
+            -1.4875867805692529e-05,
+        ]
 
     # ho_norm_sq = torch.sum(ho**2, dim=-1, keepdim=True)
     # # makes out of memory error doing all at once
@@ -515,60 +509,53 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
     f(w) = [(3/4) * (w - sin(w))]^(1/3) -> no inverse -> polynomial fit it
 
     """
+    # plain numbers for the same reason as above
     if coeffs == "kikuchipy":
-        fit_parameters = torch.tensor(
-            [
-                # Kikuchipy polyfit coeffs
-                1.0000000000018852,
-                -0.5000000002194847,
-                -0.024999992127593126,
-                -0.003928701544781374,
-                -0.0008152701535450438,
-                -0.0002009500426119712,
-                -0.00002397986776071756,
-                -0.00008202868926605841,
-                0.00012448715042090092,
-                -0.0001749114214822577,
-                0.0001703481934140054,
-                -0.00012062065004116828,
-                0.000059719705868660826,
-                -0.00001980756723965647,
-                0.000003953714684212874,
-                -0.00000036555001439719544,
-            ],
-            dtype=ho.dtype,
-            device=ho.device,
-        ).to(ho.dtype)
+        fit_parameters = [
+            # Kikuchipy polyfit coeffs
+            1.0000000000018852,
+            -0.5000000002194847,
+            -0.024999992127593126,
+            -0.003928701544781374,
+            -0.0008152701535450438,
+            -0.0002009500426119712,
+            -0.00002397986776071756,
+            -0.00008202868926605841,
+            0.00012448715042090092,
+            -0.0001749114214822577,
+            0.0001703481934140054,
+            -0.00012062065004116828,
+            0.000059719705868660826,
+            -0.00001980756723965647,
+            0.000003953714684212874,
+            -0.00000036555001439719544,
+        ]
 
     elif coeffs == "EMsoft":
-        fit_parameters = torch.tensor(
-            [
-                # EMsoft polyfit coeffs
-                0.9999999999999968,
-                -0.49999999999986866,
-                -0.025000000000632055,
-                -0.003928571496460683,
-                -0.0008164666077062752,
-                -0.00019411896443261646,
-                -0.00004985822229871769,
-                -0.000014164962366386031,
-                -1.9000248160936107e-6,
-                -5.72184549898506e-6,
-                7.772149920658778e-6,
-                -0.00001053483452909705,
-                9.528014229335313e-6,
-                -5.660288876265125e-6,
-                1.2844901692764126e-6,
-                1.1255185726258763e-6,
-                -1.3834391419956455e-6,
-                7.513691751164847e-7,
-                -2.401996891720091e-7,
-                4.386887017466388e-8,
-                -3.5917775353564864e-9,
-            ],
-            dtype=ho.dtype,
-            device=ho.device,
-        ).to(ho.dtype)
+        fit_parameters = [
+            # EMsoft polyfit coeffs
+            0.9999999999999968,
+            -0.49999999999986866,
+            -0.025000000000632055,
+            -0.003928571496460683,
+            -0.0008164666077062752,
+            -0.00019411896443261646,
+            -0.00004985822229871769,
+            -0.000014164962366386031,
+            -1.9000248160936107e-6,
+            -5.72184549898506e-6,
+            7.772149920658778e-6,
+            -0.00001053483452909705,
+            9.528014229335313e-6,
+            -5.660288876265125e-6,
+            1.2844901692764126e-6,
+            1.1255185726258763e-6,
+            -1.3834391419956455e-6,
+            7.513691751164847e-7,
+            -2.401996891720091e-7,
+            4.386887017466388e-8,
+            -3.5917775353564864e-9,
+        ]
     else:
         raise ValueError(f"Invalid fit parameters {coeffs}.")
 
-- 
2.43.0


From c8a1c3c6e6256598eb848d885e43e7e64d0d728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 150/153] fix: scattering factor table in double precision used
 single precision entries

---
 .../scattering_factors_Hybrid.py              | 51 ++++++++++---------
 .../scattering_factors_WK.py                  | 51 ++++++++++---------
 2 files changed, 52 insertions(+), 50 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 661f1eb..98db12b 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -708,39 +708,40 @@ def expi(x: Tensor) -> Tensor:
 
 @torch.jit.script
 def RIH2_torch(X: Tensor) -> Tensor:
-    # Define constants
+    # table in millionths: TorchScript builds a tensor from a list of floats in
+    # the default dtype, which would round the entries to single precision
     rih2_table = torch.tensor(
         [
-            1.000000,
-            1.005051,
-            1.010206,
-            1.015472,
-            1.020852,
-            1.026355,
-            1.031985,
-            1.037751,
-            1.043662,
-            1.049726,
-            1.055956,
-            1.062364,
-            1.068965,
-            1.075780,
-            1.082830,
-            1.090140,
-            1.097737,
-            1.105647,
-            1.113894,
-            1.122497,
-            1.131470,
+            1000000,
+            1005051,
+            1010206,
+            1015472,
+            1020852,
+            1026355,
+            1031985,
+            1037751,
+            1043662,
+            1049726,
+            1055956,
+            1062364,
+            1068965,
+            1075780,
+            1082830,
+            1090140,
+            1097737,
+            1105647,
+            1113894,
+            1122497,
+            1131470,
         ],
-        dtype=X.dtype,
+        dtype=torch.int64,
         device=X.device,
     )
-    rih2_table = rih2_table.to(X.device).to(X.dtype)
+    rih2_table = rih2_table.to(X.dtype) / 1.0e6
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 5.0e-3 * idx
+        1.0 / X - 5.0e-3 * idx.to(X.dtype)
     )
     return sig
 
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 9eab2a1..754783d 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -542,39 +542,40 @@ def expi(x: Tensor) -> Tensor:
 
 @torch.jit.script
 def RIH2_torch(X: Tensor) -> Tensor:
-    # Define constants
+    # table in millionths: TorchScript builds a tensor from a list of floats in
+    # the default dtype, which would round the entries to single precision
     rih2_table = torch.tensor(
         [
-            1.000000,
-            1.005051,
-            1.010206,
-            1.015472,
-            1.020852,
-            1.026355,
-            1.031985,
-            1.037751,
-            1.043662,
-            1.049726,
-            1.055956,
-            1.062364,
-            1.068965,
-            1.075780,
-            1.082830,
-            1.090140,
-            1.097737,
-            1.105647,
-            1.113894,
-            1.122497,
-            1.131470,
+            1000000,
+            1005051,
+            1010206,
+            1015472,
+            1020852,
+            1026355,
+            1031985,
+            1037751,
+            1043662,
+            1049726,
+            1055956,
+            1062364,
+            1068965,
+            1075780,
+            1082830,
+            1090140,
+            1097737,
+            1105647,
+            1113894,
+            1122497,
+            1131470,
         ],
-        dtype=X.dtype,
+        dtype=torch.int64,
         device=X.device,
     )
-    rih2_table = rih2_table.to(X.device).to(X.dtype)
+    rih2_table = rih2_table.to(X.dtype) / 1.0e6
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 5.0e-3 * idx
+        1.0 / X - 5.0e-3 * idx.to(X.dtype)
     )
     return sig
 
-- 
2.43.0


From ca02d77ec593240ae0839f96116aaf396ed68901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:28 +0000
Subject: [PATCH 151/153] fix: gradient refinement ignored the scan positions
 of individual pattern centers

---
 ebsdtorch/ebsd/refining.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 6266cd3..5eed752 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -296,6 +296,16 @@ def orientation_grad_refinement(
     # only the orientations are optimized here
     detector_coords = detector_coords.detach()
 
+    if not average_pattern_center:
+        # broadcast subtract the sample scan coordinates from the detector coords
+        detector_coords = detector_coords[None, :, :] - torch.cat(
+            [
+                experiment_patterns.spatial_coords[:, None, :],
+                torch.zeros_like(experiment_patterns.spatial_coords[:, None, [-1]]),
+            ],
+            dim=-1,
+        )
+
     # normalize the detector coordinates to be unit vectors
     detector_coords = detector_coords / detector_coords.norm(dim=-1, keepdim=True)
 
@@ -338,7 +348,12 @@ def orientation_grad_refinement(
             def correlate(qu: Tensor) -> Tensor:
                 # apply the state of the lattice to the detector coordinates
                 detector_coords_rotated = qu_apply(
-                    qu[:, None, :], detector_coords[None, :, :]
+                    qu[:, None, :],
+                    (
+                        detector_coords[None, :, :]
+                        if average_pattern_center
+                        else detector_coords[indices_batch]
+                    ),
                 )
 
                 # interpolate the master pattern
-- 
2.43.0


From 902090ca386aefe8a27c62c88cddcc4665aebdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:28 +0000
Subject: [PATCH 152/153] fix: Wigner d table for high band limits was NaN
 where the seed prefactor overflowed

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 56 ++++++++++++++--------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index bd4a6c8..4672d76 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -336,40 +336,42 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
+    # (e_mn exceeds the range of float64 for high degrees: it is an x-number as well)
+    e_mn_log2 = (
+        0.5
+        * (
+            torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
+            - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
+            - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
+        )
+        / math.log(2.0)
+    )
+    e_mn_i = torch.floor(e_mn_log2 / 460.0)
+    e_mn = torch.pow(2.0, e_mn_log2 - 460.0 * e_mn_i)
     if beta.item() == torch.pi / 2.0:
-        wigner_xnum[0][first_seed_indices] = (
-            torch.exp(
-                0.5
-                * (
-                    torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
-                )
+        seeds_xnum = xnum_norm(
+            (
+                e_mn * half_power_xnum[0][mmn_coords[:, 1]],
+                e_mn_i.to(torch.int32) + half_power_xnum[1][mmn_coords[:, 1]],
             )
-            * half_power_xnum[0][mmn_coords[:, 1]]
         )
-        wigner_xnum[1][first_seed_indices] = half_power_xnum[1][mmn_coords[:, 1]]
     else:
-        wigner_xnum[0][first_seed_indices] = (
-            torch.exp(
-                0.5
-                * (
-                    torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
-                )
+        cos_indices = mmn_coords[:, 1] + mmn_coords[:, 2]
+        sin_indices = mmn_coords[:, 1] - mmn_coords[:, 2]
+        seeds_xnum = xnum_norm(
+            (
+                e_mn * cos_powers_xnum[0][cos_indices],
+                e_mn_i.to(torch.int32) + cos_powers_xnum[1][cos_indices],
             )
-            * cos_powers_xnum[0][mmn_coords[:, 1] + mmn_coords[:, 2]]
-            * sin_powers_xnum[0][mmn_coords[:, 1] - mmn_coords[:, 2]]
         )
-        wigner_xnum[1][first_seed_indices] = (
-            cos_powers_xnum[1][mmn_coords[:, 1] + mmn_coords[:, 2]]
-            + sin_powers_xnum[1][mmn_coords[:, 1] - mmn_coords[:, 2]]
+        seeds_xnum = xnum_norm(
+            (
+                seeds_xnum[0] * sin_powers_xnum[0][sin_indices],
+                seeds_xnum[1] + sin_powers_xnum[1][sin_indices],
+            )
         )
-
-    wigner_xnum[0][first_seed_indices], wigner_xnum[1][first_seed_indices] = xnum_norm(
-        (wigner_xnum[0][first_seed_indices], wigner_xnum[1][first_seed_indices])
-    )
+    wigner_xnum[0][first_seed_indices] = seeds_xnum[0]
+    wigner_xnum[1][first_seed_indices] = seeds_xnum[1]
 
     coords = torch.stack((mm, mm - 1, nn - 1), dim=-1)
     coords = coords.view(-1, 3)
-- 
2.43.0


From 31c231703396db9e239f5cae622d98ab3bb5ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:28 +0000
Subject: [PATCH 153/153] fix: x-number sums and conversions used a single
 precision 2^-460, which is zero

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 4672d76..e53b6c7 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -66,8 +66,8 @@ def xnum_to_fp(x_num: Tuple[Tensor, Tensor]) -> torch.Tensor:
 
     # Constants
     IND = torch.tensor(460, dtype=torch.int32)
-    BIG = 2.0**IND
-    BIGI = 2.0 ** (-IND)
+    BIG = 2.0 ** IND.double()
+    BIGI = 2.0 ** (-IND.double())
     return torch.where(ix == 0, x, torch.where(ix < 0, x * BIGI, x * BIG))
 
 
@@ -96,7 +96,7 @@ def xnum_sum(
 
     # Constants
     IND = torch.tensor(460, dtype=torch.int32)
-    BIGI = 2.0 ** (-IND)
+    BIGI = 2.0 ** (-IND.double())
 
     id = ix - iy
     z = torch.where(
-- 
2.43.0

