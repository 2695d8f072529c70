From ad36d18f4a31c3954d8cec91bc5404b9502d2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 01/16] fix: IF45DP error estimate uses the Dormand-Prince
 weight 71/1920 for stage 4

---
 rkstiff/if45dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 0750437..18500f8 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -231,7 +231,7 @@ class IF45DP(BaseSolverAS):
         self._a76 = 11 * h / 84.0
         self._r1 = h * 71 * self._EL / 57600.0
         self._r3 = -71 * h * EL710 / 16695.0
-        self._r4 = 17 * h * self._EL15 / 1920.0
+        self._r4 = 71 * h * self._EL15 / 1920.0
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
-- 
2.43.0


From 8dce5610ed165856da2d517a785f3d52a7068596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 02/16] fix: fixed-step evolve takes the step count implied by
 tf, not by accumulated rounding

---
 rkstiff/solvercs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 160007d..aefebe4 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -249,16 +249,18 @@ class BaseSolverCS(BaseSolver):
             self.u.append(u)
 
         # Ensure step size is valid
-        if self.__tc + h > self.__tf:
+        # Times are t0 + k * h, so allow for the rounding error of that product and sum
+        t_tol = 1e-9 * abs(h) + 4 * np.spacing(max(abs(t0), abs(tf)))
+        if self.__tc + h > self.__tf + t_tol:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
 
         self.logger.debug("Step size h=%s, store_freq=%s", h, store_freq)
 
         step_count = 0
-        while self.__tc < self.__tf:
+        while self.__tf - self.__tc > t_tol:
             u = self.step(u, h)
-            self.__tc += h
             step_count += 1
+            self.__tc = t0 + step_count * h
 
             if step_count % 100 == 0:
                 self.logger.info(
-- 
2.43.0


From 8d458e23badab421add5754b06a953fdc9aa6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 03/16] fix: fixed-step evolve rejects a non-positive step
 instead of looping forever

---
 rkstiff/solvercs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index aefebe4..faea227 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -226,7 +226,7 @@ class BaseSolverCS(BaseSolver):
         Raises
         ------
         ValueError
-            If ``h`` exceeds the total time span ``tf - t0``.
+            If ``h`` exceeds the total time span ``tf - t0``, or is not positive.
 
         Notes
         -----
@@ -249,6 +249,8 @@ class BaseSolverCS(BaseSolver):
             self.u.append(u)
 
         # Ensure step size is valid
+        if h <= 0.0 and self.__tc < self.__tf:
+            raise ValueError("Step size h must be positive.")
         # Times are t0 + k * h, so allow for the rounding error of that product and sum
         t_tol = 1e-9 * abs(h) + 4 * np.spacing(max(abs(t0), abs(tf)))
         if self.__tc + h > self.__tf + t_tol:
-- 
2.43.0


From cf7ce9a2f1cf515174284bf1275b27a97da76dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 04/16] fix: adaptive step accepts a step whose estimated error
 is zero

---
 rkstiff/solveras.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 25062ef..0808f55 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -388,7 +388,8 @@ class BaseSolverAS(BaseSolver):
             self.logger.debug("Computed s=%s for h=%s", s, h)
 
             # If s is less than 1, inf, or nan, reject step and reduce step size
-            if np.isinf(s) or np.isnan(s) or s < 1.0:
+            # (a step of zero length makes no progress, so it is never accepted)
+            if np.isinf(s) or np.isnan(s) or s < 1.0 or h == 0.0:
                 h = self._reject_step_size(s, h)
             # If s is bigger than 1 accept h and the step
             else:
@@ -449,9 +450,14 @@ class BaseSolverAS(BaseSolver):
         """
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
-        idx = magu / magu.max() > self.config.adapt_cutoff
+        maxu = magu.max()
+        idx = magu / maxu > self.config.adapt_cutoff if maxu > 0 else np.ones(magu.shape, dtype=bool)
         tol = self.config.epsilon * np.linalg.norm(u[idx])
-        s = self.config.safety_f * np.power(tol / np.linalg.norm(err[idx]), 1.0 / self._q())
+        err_norm = np.linalg.norm(err[idx])
+        # A finite step with no estimated error is as good as it gets: grow the step
+        if err_norm == 0.0 and np.all(np.isfinite(u)):
+            return self.MAX_S
+        s = self.config.safety_f * np.power(tol / err_norm, 1.0 / self._q())
         return s
 
     def _reject_step_size(self, s: float, h: float) -> float:
-- 
2.43.0


From 81a98602fbbb61d63b44767400ef83ca0436faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 05/16] fix: evolve progress percentage is relative to t0 and
 never divides by zero

---
 rkstiff/solveras.py | 2 +-
 rkstiff/solvercs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 0808f55..bf1873a 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -637,7 +637,7 @@ class BaseSolverAS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index faea227..b557d3f 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -269,7 +269,7 @@ class BaseSolverCS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
-- 
2.43.0


From cb4e0fbfa50ec197f5c33036d09c04215106be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 06/16] fix: Fourier grids always have exactly n points

---
 rkstiff/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index bdeb596..5401b0e 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -80,7 +80,7 @@ def construct_x_kx_rfft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[n
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)
     return x, kx
 
@@ -126,7 +126,7 @@ def construct_x_kx_fft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[np
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.fftfreq(n, d=dx)
     return x, kx
 
-- 
2.43.0


From bbf8f0705a39242880a44dd0f6b651a31be26b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 07/16] fix: adaptive evolve lands on tf exactly on its final
 step

---
 rkstiff/solveras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index bf1873a..fcb0f2a 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -628,8 +628,10 @@ class BaseSolverAS(BaseSolver):
 
         step_count = 0
         while self.__tc < self.__tf:
+            remaining = self.__tf - self.__tc
             u, h, h_suggest = self.step(u, h)
-            self.__tc += h
+            # tc + (tf - tc) may miss tf by a rounding error, so land on tf exactly
+            self.__tc = self.__tf if h == remaining else self.__tc + h
             step_count += 1
 
             if step_count % 100 == 0:
-- 
2.43.0


From f689d59ec0bcef0e16923d250ab0eae0d04b7c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 08/16] fix: diagonalized error estimates are returned in the
 original basis

---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 rkstiff/if34.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 4a25323..c918789 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -301,7 +301,7 @@ class _Etd34Diagonalized(_Etd34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = self._a54 * (self._NL4 - self._NL5)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd34NonDiagonal:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index d821272..51608db 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -492,7 +492,7 @@ class _Etd35Diagonalized(_Etd35Diagonal):
             + self._a76 * self._NL6
         )
         self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd35NonDiagonal:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 535dbbe..566942a 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -193,7 +193,7 @@ class _If34Diagonalized(_If34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = h * (self._NL4 - self._NL5) / 6.0
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 # ======================================================================
-- 
2.43.0


From 3629ecd3544f7561a4e296ab1db8542d7b22a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 09/16] fix: solvers built without a config no longer share one
 default config object

---
 rkstiff/etd.py      | 12 ++++++------
 rkstiff/etd34.py    | 12 ++++++------
 rkstiff/etd35.py    | 12 ++++++------
 rkstiff/etd4.py     |  4 ++--
 rkstiff/etd5.py     |  4 ++--
 rkstiff/if34.py     |  4 ++--
 rkstiff/if45dp.py   |  4 ++--
 rkstiff/solveras.py |  4 +++-
 8 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index 584a02e..c220b64 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -37,7 +37,7 @@ ETD methods are particularly efficient when
 :math:`\mathcal{N}(\mathbf{U})` evolves on a slower time scale than the linear component :math:`\mathcal{L}\mathbf{U}`.
 """
 
-from typing import Union, Literal, Callable
+from typing import Union, Literal, Callable, Optional
 import numpy as np
 from .solvercs import BaseSolverCS
 from .solveras import SolverConfig, BaseSolverAS
@@ -217,12 +217,12 @@ class ETDAS(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, config, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
 
 
@@ -270,9 +270,9 @@ class ETDCS(BaseSolverCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index c918789..8ef4f75 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -17,7 +17,7 @@ third-order error estimation for adaptive step control.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -509,8 +509,8 @@ class ETD34(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -545,12 +545,12 @@ class ETD34(ETDAS):
         """
         super().__init__(lin_op, nl_func, config=config, etd_config=etd_config, loglevel=loglevel)
         if self._diag:
-            self._method = _Etd34Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd34Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd34Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd34Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd34NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd34NonDiagonal(lin_op, nl_func, self.etd_config)
         self.__n1_init = False
         self._accept = False
 
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 51608db..8cf443c 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -61,7 +61,7 @@ local error estimates derived from the third-order embedding.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -785,8 +785,8 @@ class ETD35(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -820,12 +820,12 @@ class ETD35(ETDAS):
             loglevel=loglevel,
         )
         if self._diag:
-            self._method = _Etd35Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd35Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd35Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd35Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd35NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd35NonDiagonal(lin_op, nl_func, self.etd_config)
         self._stages_init = False
         self._accept = False
 
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index a49b6e3..2d3a822 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -25,7 +25,7 @@ Journal of Computational Physics, 203(1), 72–88.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -346,7 +346,7 @@ class ETD4(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         r"""
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 3255557..2993ee1 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -28,7 +28,7 @@ Whalen, P., Brio, M., & Moloney, J.V. (2015).
 Journal of Computational Physics, 280, 579–601.
 """
 
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -536,7 +536,7 @@ class ETD5(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 566942a..7cad2f9 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -39,7 +39,7 @@ J. Comput. Phys. **280**, 579-601 (2015).
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Callable, Union, Literal, Optional
 import numpy as np
 from scipy.linalg import expm
 from .solveras import SolverConfig, BaseSolverAS
@@ -290,7 +290,7 @@ class IF34(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 18500f8..cce3d36 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -1,6 +1,6 @@
 """Integrating factor adaptive step solver of 5th order with 4rd order embedding."""
 
-from typing import Callable, Literal, Union
+from typing import Callable, Literal, Union, Optional
 import numpy as np
 from .solveras import SolverConfig, BaseSolverAS
 
@@ -48,7 +48,7 @@ class IF45DP(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index fcb0f2a..88da875 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -263,11 +263,13 @@ class BaseSolverAS(BaseSolver):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """Initialize an adaptive-step solver with validated configuration."""
         super().__init__(lin_op, nl_func, loglevel)
+        # A default argument would be one object shared by every solver
+        config = SolverConfig() if config is None else config
         self.config = config
 
         self.logger.debug(
-- 
2.43.0


From dae202481768f6371da3feceef173a7074523cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 10/16] fix: SolverConfig and ETDConfig reject NaN like any
 other value outside the range

---
 rkstiff/etd.py      |  4 ++--
 rkstiff/solveras.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index c220b64..d11b578 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -96,7 +96,7 @@ class ETDConfig:
 
     @modecutoff.setter
     def modecutoff(self, value: float) -> None:
-        if (value > 1.0) or (value <= 0):
+        if not 0 < value <= 1.0:
             raise ValueError(f"modecutoff must be between 0.0 and 1.0 but is {value}")
         self._modecutoff = value
 
@@ -126,7 +126,7 @@ class ETDConfig:
 
     @contour_radius.setter
     def contour_radius(self, value: float) -> None:
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"contour_radius must greater than 0 but is {value}")
         self._contour_radius = value
 
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 88da875..3203ce4 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -104,7 +104,7 @@ class SolverConfig:
     @epsilon.setter
     def epsilon(self, value: float) -> None:
         """Set relative error tolerance, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"epsilon must be positive but is {value}")
         self._epsilon = float(value)
 
@@ -116,7 +116,7 @@ class SolverConfig:
     @incr_f.setter
     def incr_f(self, value: float) -> None:
         """Set increment factor, must be greater than 1.0."""
-        if value <= 1.0:
+        if not value > 1.0:
             raise ValueError(f"incr_f must be > 1.0 but is {value}")
         self._incr_f = float(value)
 
@@ -128,7 +128,7 @@ class SolverConfig:
     @decr_f.setter
     def decr_f(self, value: float) -> None:
         """Set decrement factor, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"decr_f must be < 1.0 but is {value}")
         self._decr_f = float(value)
 
@@ -140,7 +140,7 @@ class SolverConfig:
     @safety_f.setter
     def safety_f(self, value: float) -> None:
         """Set safety factor, must be ≤ 1.0."""
-        if value > 1.0:
+        if not value <= 1.0:
             raise ValueError(f"safety_f must be <= 1.0 but is {value}")
         self._safety_f = float(value)
 
@@ -152,7 +152,7 @@ class SolverConfig:
     @adapt_cutoff.setter
     def adapt_cutoff(self, value: float) -> None:
         """Set adaptivity cutoff, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"adapt_cutoff must be < 1.0 but is {value}")
         self._adapt_cutoff = float(value)
 
@@ -164,7 +164,7 @@ class SolverConfig:
     @minh.setter
     def minh(self, value: float) -> None:
         """Set minimum step size, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"minh must be positive but is {value}")
         self._minh = float(value)
 
-- 
2.43.0


From b65d83f5ca4e706cb5d10cc55268e7e54757d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 11/16] fix: adaptive evolve fails instead of repeating a time
 its step cannot advance

---
 rkstiff/solveras.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 3203ce4..4920db9 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -633,7 +633,12 @@ class BaseSolverAS(BaseSolver):
             remaining = self.__tf - self.__tc
             u, h, h_suggest = self.step(u, h)
             # tc + (tf - tc) may miss tf by a rounding error, so land on tf exactly
-            self.__tc = self.__tf if h == remaining else self.__tc + h
+            tnew = self.__tf if h == remaining else self.__tc + h
+            if tnew <= self.__tc:
+                failure_str = "Solver failed: step size is too small to advance the time"
+                self.logger.error(failure_str)
+                raise self.MinimumStepReached(failure_str)
+            self.__tc = tnew
             step_count += 1
 
             if step_count % 100 == 0:
-- 
2.43.0


From 72f0d9b96cafb169c80ef2d09fc52535eed45448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 12/16] fix: mirror_grid flips and joins along the same axis

With the default axis=-1 a 2D field had its rows flipped but was joined by
columns, and axis=0 turned a 1D field into a 2D one, so neither result was the
even extension of the field.
---
 rkstiff/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index 5401b0e..9a51bcc 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -310,9 +310,9 @@ def mirror_grid(
         return rnew, None
 
     if axis == -1:
-        unew = np.hstack([np.flipud(u), u])
+        unew = np.concatenate([np.flip(u, axis=-1), u], axis=-1)
     elif axis == 0:
-        unew = np.vstack([np.flipud(u), u])
+        unew = np.concatenate([np.flipud(u), u], axis=0)
     elif axis == 1:
         unew = np.hstack([np.fliplr(u), u])
     else:
-- 
2.43.0


From baaac46d7be1bfcd23d552aafde0308b94333d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 13/16] fix: keep the Chebyshev matrix diagonal free of the
 unit placeholder

The 1 put on the diagonal to avoid dividing by zero was only removed by
cancellation, which cost the diagonal (and D applied to a constant) about
(b-a) ulps: D @ x was 1 only to 1e-8 on an interval of length 1e8.
---
 rkstiff/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index 9a51bcc..ccf8925 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -215,6 +215,7 @@ def construct_x_dx_cheb(n: int, a: float = -1, b: float = 1) -> Tuple[np.ndarray
     X = np.tile(x.reshape(n + 1, 1), (1, n + 1))
     dX = X - X.T
     d_cheb_matrix = np.outer(c, 1.0 / c) / (dX + np.eye(n + 1))
+    np.fill_diagonal(d_cheb_matrix, 0.0)
     d_cheb_matrix = d_cheb_matrix - np.diag(d_cheb_matrix.sum(axis=1))
     return x, d_cheb_matrix
 
-- 
2.43.0


From 6e654e3d0ecdb4d559b3a24da5e5f9625745ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 14/16] fix: compute in double precision for single-precision
 operators

The integrating-factor solvers formed their exponentials, and every solver
its eigenbasis and singularity test, in the operator's own precision: a
float32 operator gave single-precision results from IF4, IF34 and IF45DP
but not from the ETD solvers, and a singular one passed diagonalization.
---
 rkstiff/etd34.py  | 1 +
 rkstiff/etd35.py  | 1 +
 rkstiff/etd4.py   | 1 +
 rkstiff/etd5.py   | 1 +
 rkstiff/if34.py   | 1 +
 rkstiff/if4.py    | 1 +
 rkstiff/solver.py | 3 ++-
 7 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 8ef4f75..ad11829 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -544,6 +544,7 @@ class ETD34(ETDAS):
         - From BaseSolverAS: epsilon, incr_f, decr_f, safety_f, adapt_cutoff, and minh
         """
         super().__init__(lin_op, nl_func, config=config, etd_config=etd_config, loglevel=loglevel)
+        lin_op = self.lin_op
         if self._diag:
             self._method = _Etd34Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 8cf443c..b7d3148 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -819,6 +819,7 @@ class ETD35(ETDAS):
             etd_config=etd_config,
             loglevel=loglevel,
         )
+        lin_op = self.lin_op
         if self._diag:
             self._method = _Etd35Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index 2d3a822..fb7323f 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -364,6 +364,7 @@ class ETD4(ETDCS):
             Logging verbosity level.
         """
         super().__init__(lin_op, nl_func, etd_config=etd_config, loglevel=loglevel)
+        lin_op = self.lin_op
         self._method = Union[_Etd4Diagonal, _Etd4NonDiagonal]
         if self._diag:
             self._method = _Etd4Diagonal(lin_op, nl_func, self.etd_config)
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 2993ee1..45775f7 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -569,6 +569,7 @@ class ETD5(ETDCS):
         - The parent class ETDCS handles common setup and validation.
         """
         super().__init__(lin_op, nl_func, etd_config, loglevel)
+        lin_op = self.lin_op
         if self._diag:
             self._method = _Etd5Diagonal(lin_op, nl_func, self.etd_config)
         else:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 7cad2f9..1bb37b3 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -296,6 +296,7 @@ class IF34(BaseSolverAS):
     ) -> None:
         """Initialize the IF(3,4) adaptive solver."""
         super().__init__(lin_op, nl_func, config=config, loglevel=loglevel)
+        lin_op = self.lin_op
         self._method = (
             _If34Diagonal(lin_op, nl_func, self.logger)
             if self._diag
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index 56d86e4..529d201 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -245,6 +245,7 @@ class IF4(BaseSolverCS):
     ) -> None:
         """Initialize the IF4 solver and select diagonal or matrix strategy."""
         super().__init__(lin_op, nl_func, loglevel)
+        lin_op = self.lin_op
         self._method = Union[_IF4Diagonal, _IF4NonDiagonal]
         if self._diag:
             self._method = _IF4Diagonal(lin_op, nl_func)
diff --git a/rkstiff/solver.py b/rkstiff/solver.py
index e0749cf..c2d1c13 100644
--- a/rkstiff/solver.py
+++ b/rkstiff/solver.py
@@ -115,7 +115,8 @@ class BaseSolver(ABC):
         ValueError
             If ``lin_op`` is not 1D or not a square 2D matrix.
         """
-        self.lin_op = lin_op
+        # coefficients are computed in (at least) double precision, whatever the operator's dtype
+        self.lin_op = lin_op.astype(np.result_type(lin_op, np.float64), copy=False)
         self.nl_func = nl_func
 
         # Create and configure logger
-- 
2.43.0


From 24d237460f724da0e505887aad5f9a52d2ef734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 15/16] fix: do not treat coefficients as current when their
 computation failed part-way

---
 rkstiff/etd34.py  | 3 ++-
 rkstiff/etd35.py  | 3 ++-
 rkstiff/etd4.py   | 3 ++-
 rkstiff/etd5.py   | 3 ++-
 rkstiff/if34.py   | 3 ++-
 rkstiff/if4.py    | 3 ++-
 rkstiff/if45dp.py | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index ad11829..9c7ca2b 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -583,8 +583,9 @@ class ETD34(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no step size is valid until all coefficients are in place
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index b7d3148..83e6e5c 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -851,8 +851,9 @@ class ETD35(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no step size is valid until all coefficients are in place
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD35 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index fb7323f..1498c32 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -396,8 +396,9 @@ class ETD4(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no step size is valid until all coefficients are in place
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 45775f7..5812acc 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -616,8 +616,9 @@ class ETD5(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no step size is valid until all coefficients are in place
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD5 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 1bb37b3..2770357 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -315,8 +315,9 @@ class IF34(BaseSolverAS):
     def _update_coeffs(self, h: float) -> None:
         """Recompute coefficients if step size changed."""
         if h != self._h_coeff:
-            self._h_coeff = h
+            self._h_coeff = None  # no step size is valid until all coefficients are in place
             self._method.update_coeffs(h)
+            self._h_coeff = h
             self.logger.debug("IF34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index 529d201..d97fb0c 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -263,8 +263,9 @@ class IF4(BaseSolverCS):
         """Update exponential coefficients if step size :math:`h` changes."""
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no step size is valid until all coefficients are in place
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("IF4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index cce3d36..acf4c11 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -200,7 +200,7 @@ class IF45DP(BaseSolverAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no step size is valid until all coefficients are in place
         z = h * self.lin_op
         self._EL15 = np.exp(z / 5)
         self._EL310 = np.exp(3 * z / 10)
@@ -235,6 +235,7 @@ class IF45DP(BaseSolverAS):
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
+        self._h_coeff = h
         self.logger.debug("IF45 coefficients updated for step size h=%s", h)
 
     def _q(self) -> int:
-- 
2.43.0


From 86c25ed8fe88e5e0d04fbed021e88040c9114383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 16/16] fix: Hankel grids and transforms reject a NaN radius
 like any other that is not positive

---
 rkstiff/grids.py      | 2 +-
 rkstiff/transforms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index ccf8925..3991664 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -255,7 +255,7 @@ def construct_r_kr_hankel(nr: int, rmax: float) -> Tuple[np.ndarray, np.ndarray,
     """
     if nr < 4:
         raise ValueError("nr must be ≥ 4.")
-    if rmax <= 0:
+    if not rmax > 0:
         raise ValueError("rmax must be positive.")
 
     bessel_zeros = sp.jn_zeros(0, nr + 1)
diff --git a/rkstiff/transforms.py b/rkstiff/transforms.py
index 11949c6..3cede78 100644
--- a/rkstiff/transforms.py
+++ b/rkstiff/transforms.py
@@ -167,7 +167,7 @@ class HankelTransform:
     @rmax.setter
     def rmax(self, rmax: float):
         """Set maximum radial extent and recompute Hankel transform grid."""
-        if rmax <= 0:
+        if not rmax > 0:
             raise ValueError("rmax must be positive.")
         self._setnr_setrmax(self._nr, rmax)
 
-- 
2.43.0

