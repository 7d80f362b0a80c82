From e39de1f77ce8d4bab91938825c3b73df3108fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:48 +0000
Subject: [PATCH 01/23] fix: T-ISS background update subtracts the
 dereverberation filter's contribution

---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 7e38484..eeeb3cd 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -202,7 +202,7 @@ def background_update(W, H, C_XX, C_XbarX, eps=1e-5):
 
     A1 = torch.einsum("...sfc,...cfd->...fsd", W, C_XX)
     A2 = torch.einsum("...sfdt,...dtfc->...fsc", H, C_XbarX)
-    A = A1 + A2  # (..., n_freq, n_src, n_chan)
+    A = A1 - A2  # (..., n_freq, n_src, n_chan)
 
     mat = A[..., :n_src]
     rhs = A[..., n_src:]
-- 
2.43.0


From 5a06da74d68846f166ebcfd6c0254369faa8940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 02/23] fix: T-ISS projection back on a background microphone
 supports batched input

---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index eeeb3cd..a857c82 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -287,7 +287,7 @@ def projection_back_weights(W, J=None, ref_mic=0, eps=1e-6):
             rhs = eye[:, [ref_mic]]
         else:
             rhs = J[..., [ref_mic - n_src], :, :]
-            rhs = rhs.permute([-2, -1, -3])
+            rhs = rhs.moveaxis(-3, -1)
 
         lhs = torch.einsum("...sfc->...fcs", B)
 
-- 
2.43.0


From 7b3906ce226c52569a2e5649781e38869da08bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 03/23] fix: AuxIVA_IP with n_src=None separates as many
 sources as channels

---
 torchiva/auxiva_ip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index f583edf..86803b3 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -221,6 +221,9 @@ class AuxIVA_IP(DRBSSBase):
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
+        if n_src is None:
+            n_src = n_chan
+
         # for now, only supports determined case
         assert callable(model)
 
-- 
2.43.0


From 6d97258c44fe4fc28ec3ef332a8011dd63e8a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 04/23] fix: STFT accepts a custom window

---
 torchiva/stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/stft.py b/torchiva/stft.py
index 083be5a..be812ab 100644
--- a/torchiva/stft.py
+++ b/torchiva/stft.py
@@ -51,7 +51,7 @@ class STFT(torch.nn.Module):
             self._window_type = window
             window = get_window(window, self._n_fft)
         else:
-            self.window_type = "custom"
+            self._window_type = "custom"
 
         if isinstance(window, np.ndarray):
             window = torch.from_numpy(window)
-- 
2.43.0


From 4e946fd9041b688939d5d83aa833e2286fd6b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 05/23] fix: 2x2 GEVD keeps the precision of the input in the
 eigenvalues

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 56775a1..41f9bb1 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -197,7 +197,7 @@ def eigh_2x2(
         delta = pt.clamp(delta, min=eps)
 
         # fill the eigenvectors in ascending order
-        eigenvalues = pt.zeros(A.shape[:-1], device=A.device)
+        eigenvalues = delta.new_zeros(A.shape[:-1])
         eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
         eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
 
-- 
2.43.0


From cd643cdd46ad4020ed8e32060cbd06741a15d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 06/23] fix: eigh of a 2x2 complex matrix returns its
 eigenvectors, not their conjugates

---
 torchiva/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 41f9bb1..3add027 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -279,8 +279,8 @@ def eigh(
     Eigenvalue decomposition of a complex Hermitian symmetric matrix
     """
 
-    # for 2x2, use specialized routine
-    if A.shape[-1] == 2:
+    # for the 2x2 GEVD, use specialized routine
+    if A.shape[-1] == 2 and B is not None:
         return eigh_2x2(A, B=B, eps=eps)
 
     if B is not None:
-- 
2.43.0


From c4e0ecee96f7718721ad072c034fd053e7f72174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 07/23] fix: FIVE with a single power iteration

---
 torchiva/five.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 677c2ad..5a9bfc8 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -29,10 +29,6 @@ from .models import LaplaceModel
 from .parameters import eps_models
 
 
-def normalize(x):
-    return x / torch.linalg.norm(x, dim=-2, keepdim=True)
-
-
 def smallest_eigenvector_eigh_cpu(V):
     dev = V.device
 
@@ -59,7 +55,8 @@ def smallest_eigenvector_power_method(V, n_iter=10):
 
     # initial point x0 = [1, 0, ..., 0]
     x = V_inv[..., :, 0]
-    x = normalize(x)
+    ev = torch.linalg.norm(x, dim=-1)
+    x = x / ev[..., None]
 
     for epoch in range(n_iter - 1):
         x = torch.einsum("...fcd,...fd->...fc", V_inv, x)
-- 
2.43.0


From fb29c4c50b0db717b6e17c9aa201c847041d29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 08/23] fix: FIVE without projection back

---
 torchiva/five.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 5a9bfc8..66fbe01 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -190,7 +190,8 @@ class FIVE(DRBSSBase):
 
         # we keep the row of Q^{-1} corresponding to the reference mic for the
         # normalization
-        Qinv_ref = Qinv[..., proj_back_mic, :]
+        if proj_back_mic is not None:
+            Qinv_ref = Qinv[..., proj_back_mic, :]
         # Qinv_ref = e_vec[..., proj_back_mic, None, :] * e_val_sqrt[..., None, :]
 
         # keep the input for scaling
@@ -232,8 +233,10 @@ class FIVE(DRBSSBase):
                 )
 
             # projection back
-            z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
-            w = eigenvector * torch.conj(z[..., None])
+            w = eigenvector
+            if proj_back_mic is not None:
+                z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
+                w = w * torch.conj(z[..., None])
 
             # the new output
             Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X)
-- 
2.43.0


From 2c8531e139008e95e6547d293ed882beaf12c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 09/23] fix: the separate command honours --n_iter for all
 source models

---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index e134e04..1a9b930 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -195,6 +195,7 @@ def main(args):
 
         separator = torchiva.nn.BSSSeparator(
             n_fft=args.nfft,
+            n_iter=args.n_iter,
             hop_length=args.hop,
             window=args.win,
             n_taps=args.taps,
-- 
2.43.0


From 09df9a533dc2ae6f1fd771b54643c06a92519384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 10/23] fix: the separate command uses all the selected
 channels

---
 torchiva/separate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 1a9b930..105ca88 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -48,12 +48,12 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         mix = mix[..., :n_chan, :]
 
     with torch.no_grad():
-        y = separator(mix[..., :n_src, :])
+        y = separator(mix)
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
             y = torchiva.select_most_energetic(
-                y, num=ref.shape[-2], dim=-2, dim_reduc=-1
+                y, num=n_src, dim=-2, dim_reduc=-1
             )
 
         # make same size as input
-- 
2.43.0


From 116df352cf5fa11b2ac58558edf43ac541f53871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 11/23] fix: the separate command writes one output per input
 in nested folders

---
 torchiva/separate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 105ca88..22b061c 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -219,7 +219,8 @@ def main(args):
             raise ValueError("Input and output should be different folders")
 
         for path_in in args.input.rglob("*.wav"):
-            path_out = args.output / path_in.name
+            path_out = args.output / path_in.relative_to(args.input)
+            path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
             )
-- 
2.43.0


From 37affd8713000a91bcb33e754eb02bbf4902b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:35 +0000
Subject: [PATCH 12/23] fix: an interrupted download is not used as a complete
 model file

---
 torchiva/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 45fca96..43f2aba 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -40,7 +40,10 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            urlretrieve(url, filename=fn)
+            # an interrupted download should not be taken for the complete file
+            tmp_fn = fn.with_name(fn.name + ".part")
+            urlretrieve(url, filename=tmp_fn)
+            os.replace(tmp_fn, fn)
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From d677ac6c36ed278f9bab83679cac25936449cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:59 +0000
Subject: [PATCH 13/23] fix: AuxIVA_IP projection back on a background
 microphone

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index 86803b3..fcb8de6 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -96,7 +96,7 @@ def projection_back_from_demixing_matrix(
             e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
 
         WW = A + B @ C
-        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape)
+        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape[-2:])
         a = solve_loaded_general(WW.transpose(-2, -1), e1)
         a = a.transpose(-3, -2)
 
-- 
2.43.0


From 554074838e08c8ff89b1d51a5600b0d23bee0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:00 +0000
Subject: [PATCH 14/23] fix: inv_2x2 of a single matrix returns a single matrix

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 3add027..06c4d82 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -129,7 +129,7 @@ def inv_2x2(W: pt.Tensor, eps=1e-6):
     det = W11 * W22 - W12 * W21
 
     # complex clamp
-    det = pt.where(abs(det) < eps, eps * det.new_ones(1), det)
+    det = pt.where(abs(det) < eps, eps * pt.ones_like(det), det)
 
     adjoint = pt.stack(
         (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-1
-- 
2.43.0


From 2eafa374ef0d0cc35cd24eba1aa68deb16de547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:03 +0000
Subject: [PATCH 15/23] fix: MWF beamformer honours eps

---
 torchiva/beamformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 1cc4be7..e32bb89 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -59,7 +59,9 @@ def compute_mwf_bf(
         return W_H
 
     else:
-        w = solve_loaded(covmat_target + covmat_noise, covmat_target[..., ref_mic])
+        w = solve_loaded(
+            covmat_target + covmat_noise, covmat_target[..., ref_mic], load=eps
+        )
         return w
 
 
-- 
2.43.0


From a737ad733aedf6e2c8e8dc7bba8d03c4f38a7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:23 +0000
Subject: [PATCH 16/23] fix: mixed-norm minimum distortion weights for 1 < q <
 2

---
 torchiva/scaling.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 2aa3553..87ea98b 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -221,8 +221,7 @@ def lpq_norm(E, p=1, q=2, axis=0) -> pt.Tensor:
     assert p > 0 and q >= p and q <= 2.0
 
     E = E.abs() + 1e-5
-    E = E.pow(q) + 1e-5
-    rn = pt.sum(E, dim=axis, keepdim=True).pow(1 - p / q)
-    qfn = pt.abs(E).pow(2 - q)
+    rn = pt.sum(E.pow(q) + 1e-5, dim=axis, keepdim=True).pow(1 - p / q)
+    qfn = E.pow(2 - q)
     weights = p / pt.clamp(2.0 * rn * qfn, min=eps_scaling["gmdp"])
     return weights
-- 
2.43.0


From 3b55c46b1e32aeb6e1ecd00292c288897f00884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:09 +0000
Subject: [PATCH 17/23] fix: the separate command does not process its own
 output

---
 torchiva/separate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 22b061c..7721715 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -218,7 +218,8 @@ def main(args):
         if args.output == args.input:
             raise ValueError("Input and output should be different folders")
 
-        for path_in in args.input.rglob("*.wav"):
+        # list the files first, the output may be a sub-folder of the input
+        for path_in in list(args.input.rglob("*.wav")):
             path_out = args.output / path_in.relative_to(args.input)
             path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
-- 
2.43.0


From 5c6859c729f251889185eaf3979ea5126bf0a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:09 +0000
Subject: [PATCH 18/23] fix: the separate command never overwrites its input

---
 torchiva/separate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 7721715..514e51e 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -215,7 +215,7 @@ def main(args):
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
             raise ValueError(f"{args.output} is not a folder")
-        if args.output == args.input:
+        if args.output.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different folders")
 
         # list the files first, the output may be a sub-folder of the input
@@ -238,7 +238,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if args.output == args.input:
+        if path_out.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From 5e4c6dd047143f8cce3857dae45708c299eac1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 19/23] fix: concurrent downloads of a model do not share a
 file

---
 torchiva/loader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 43f2aba..bd40084 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,4 +1,5 @@
 import os
+import tempfile
 from pathlib import Path
 from typing import Union, Optional
 
@@ -40,10 +41,12 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            # an interrupted download should not be taken for the complete file
-            tmp_fn = fn.with_name(fn.name + ".part")
-            urlretrieve(url, filename=tmp_fn)
-            os.replace(tmp_fn, fn)
+            # an interrupted download should not be taken for the complete file,
+            # and concurrent downloads should not write to the same file
+            with tempfile.TemporaryDirectory(dir=fn.parent) as tmp_dir:
+                tmp_fn = Path(tmp_dir) / fn.name
+                urlretrieve(url, filename=tmp_fn)
+                os.replace(tmp_fn, fn)
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From 6ceb3dd8c02b6ce171d43289b3f47a8cc7e98886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 20/23] fix: models downloaded from different URLs do not share
 a cache folder

---
 torchiva/loader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index bd40084..18a4eeb 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,3 +1,4 @@
+import hashlib
 import os
 import tempfile
 from pathlib import Path
@@ -26,8 +27,10 @@ def urljoin(part1, part2):
 
 
 def get_model_from_url(url):
-    path = Path(url)
-    model_name = path.name
+    # different models may share the last part of their URL
+    url = url.rstrip("/")
+    digest = hashlib.sha256(url.encode()).hexdigest()[:16]
+    model_name = f"{Path(url).name}-{digest}"
     yaml_url = urljoin(url, CONFIG_FN)
     ckpt_url = urljoin(url, WEIGHTS_FN)
     print(url)
-- 
2.43.0


From 276f53b1f538a49d17e31e1e940d1b8976d1b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:03 +0000
Subject: [PATCH 21/23] fix: complex products and the BLSTM mask accept lazily
 conjugated tensors

---
 torchiva/linalg.py       | 6 +++---
 torchiva/models/blstm.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 06c4d82..99a2826 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -48,7 +48,7 @@ def multiply(tensor1: pt.Tensor, tensor2: pt.Tensor):
             tensor1, tensor2 = tensor2, tensor1
 
         # tensor1 is real, tensor2 is complex
-        return pt.view_as_complex(pt.view_as_real(tensor2) * tensor1[..., None])
+        return pt.view_as_complex(pt.view_as_real(tensor2.resolve_conj()) * tensor1[..., None])
 
 
 def mag_sq(x: pt.Tensor):
@@ -63,8 +63,8 @@ def mag(x: pt.Tensor):
 
 
 def bmm(input: pt.Tensor, mat2: pt.Tensor) -> pt.Tensor:
-    m1 = pt.view_as_real(input)
-    m2 = pt.view_as_real(mat2)
+    m1 = pt.view_as_real(input.resolve_conj())
+    m2 = pt.view_as_real(mat2.resolve_conj())
     real_part = m1[..., 0] @ m2[..., 0] - m1[..., 1] @ m2[..., 1]
     imag_part = m1[..., 0] @ m2[..., 1] + m1[..., 1] @ m2[..., 0]
     out = pt.cat((real_part[..., None], imag_part[..., None]), dim=-1)
diff --git a/torchiva/models/blstm.py b/torchiva/models/blstm.py
index 4b42698..6a43ed4 100644
--- a/torchiva/models/blstm.py
+++ b/torchiva/models/blstm.py
@@ -64,7 +64,7 @@ class BLSTMMask(nn.Module):
                 X = torch.log(X + 1e-7)
         else:
             # reduce to mel-spectrogram
-            X = torch.view_as_real(X)
+            X = torch.view_as_real(X.resolve_conj())
             Xr = self.mel_layer(X[..., 0])
             Xi = self.mel_layer(X[..., 1])
 
-- 
2.43.0


From e7ad8da26fbc9a35257ba6cb6957e36d17a40039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 22/23] fix: diagonal_loading adds the given vector to the
 diagonal

---
 torchiva/linalg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 99a2826..268f3b5 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -144,9 +144,7 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     """
     Load the diagonal of A with the vector d
     """
-    D = pt.diag(pt.arange(A.shape[-1], device=A.device) * eps)
-    D = D.reshape(pt.Size([1] * (len(A.shape) - 2)) + A.shape[-2:])
-    return A + D
+    return A + pt.diag_embed(d)
 
 
 def eigh_2x2(
-- 
2.43.0


From 6f972851cf03f5d32ebd3e88c4b998f8a6f5f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 23/23] fix: the verbose cost of AuxIVA-IP supports batched
 input

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index fcb8de6..71e6a9b 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -106,7 +106,7 @@ def projection_back_from_demixing_matrix(
 
 
 def cost(model, Y, W, J=None, g=None):
-    n_freq, n_src, n_chan = W.shape
+    n_src, n_chan = W.shape[-2:]
     n_frames = Y.shape[-1]
 
     if J is not None:
-- 
2.43.0

