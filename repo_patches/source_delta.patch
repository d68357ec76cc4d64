From 4e4bca9d0cc61aba131ecb3dbff77e2a1ecde275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 01/33] fix: resolve the default logarithm base when an
 estimator is created

The default base was bound when the modules were imported, so Config.set('base', ...)
and Config.set_logarithmic_unit(...) had no effect on later calculations.
---
 infomeasure/estimators/base.py                | 22 ++++++++++---------
 infomeasure/estimators/entropy/ansb.py        |  3 +--
 infomeasure/estimators/entropy/bayes.py       |  3 +--
 infomeasure/estimators/entropy/kernel.py      |  3 +--
 .../estimators/entropy/kozachenko_leonenko.py |  3 +--
 infomeasure/estimators/entropy/nsb.py         |  3 +--
 infomeasure/estimators/entropy/ordinal.py     |  3 +--
 infomeasure/estimators/entropy/renyi.py       |  3 +--
 infomeasure/estimators/entropy/tsallis.py     |  3 +--
 .../estimators/mutual_information/ansb.py     |  3 +--
 .../estimators/mutual_information/bayes.py    |  3 +--
 .../mutual_information/bonachela.py           |  3 +--
 .../mutual_information/chao_shen.py           |  3 +--
 .../mutual_information/chao_wang_jost.py      |  3 +--
 .../estimators/mutual_information/discrete.py |  3 +--
 .../mutual_information/grassberger.py         |  3 +--
 .../estimators/mutual_information/kernel.py   |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../mutual_information/miller_madow.py        |  3 +--
 .../estimators/mutual_information/nsb.py      |  3 +--
 .../estimators/mutual_information/ordinal.py  |  3 +--
 .../estimators/mutual_information/renyi.py    |  3 +--
 .../estimators/mutual_information/shrink.py   |  3 +--
 .../estimators/mutual_information/tsallis.py  |  3 +--
 .../estimators/mutual_information/zhang.py    |  3 +--
 .../estimators/transfer_entropy/ansb.py       |  3 +--
 .../estimators/transfer_entropy/bayes.py      |  3 +--
 .../estimators/transfer_entropy/bonachela.py  |  3 +--
 .../estimators/transfer_entropy/chao_shen.py  |  3 +--
 .../transfer_entropy/chao_wang_jost.py        |  3 +--
 .../estimators/transfer_entropy/discrete.py   |  3 +--
 .../transfer_entropy/grassberger.py           |  3 +--
 .../estimators/transfer_entropy/kernel.py     |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../transfer_entropy/miller_madow.py          |  3 +--
 .../estimators/transfer_entropy/nsb.py        |  3 +--
 .../estimators/transfer_entropy/ordinal.py    |  3 +--
 .../estimators/transfer_entropy/renyi.py      |  3 +--
 .../estimators/transfer_entropy/shrink.py     |  3 +--
 .../estimators/transfer_entropy/tsallis.py    |  3 +--
 .../estimators/transfer_entropy/zhang.py      |  3 +--
 41 files changed, 52 insertions(+), 90 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 15b14a3..1a6b7c0 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -64,11 +64,12 @@ class Estimator(Generic[EstimatorType], ABC):
     (use :class:`StatisticalTestingMixin` for standard implementations).
     """
 
-    def __init__(self, base: LogBaseType = Config.get("base")):
+    def __init__(self, base: LogBaseType = None):
         """Initialize the estimator."""
         self.res_global = None
         self.res_local = None
-        self.base = base
+        # No explicit base: use the default configured at this moment
+        self.base = Config.get("base") if base is None else base
 
     @final
     def calculate(self) -> None:
@@ -279,7 +280,7 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
       :math:`-\sum_{i=1}^{n} p_i \log_b q_i`
     """
 
-    def __init__(self, *data, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, base: LogBaseType = None):
         """Initialize the estimator with the data."""
         # Check valid input data
         if len(data) == 0:
@@ -481,7 +482,7 @@ class MutualInformationEstimator(
         *data,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -640,7 +641,7 @@ class ConditionalMutualInformationEstimator(
         cond=None,
         normalize: bool = False,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -801,7 +802,7 @@ class TransferEntropyEstimator(
         dest_hist_len: int = 1,
         step_size: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -988,7 +989,7 @@ class ConditionalTransferEntropyEstimator(
         step_size: int = 1,
         prop_time=None,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -1145,7 +1146,8 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         """
         if isinstance(args[0], DiscreteData):
             self.data = (args[0],)
-            self.base = kwargs.get("base", Config.get("base"))
+            base = kwargs.get("base")
+            self.base = Config.get("base") if base is None else base
             self.res_global = None
             self.res_local = None
             return
@@ -1160,7 +1162,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
 
     @classmethod
     def from_counts(
-        cls, uniq, counts, base: LogBaseType = Config.get("base"), **kwargs
+        cls, uniq, counts, base: LogBaseType = None, **kwargs
     ):
         """Construct a DiscreteHEstimator from the provided counts.
 
@@ -1176,7 +1178,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         cls,
         uniq,
         probabilities,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Construct a DiscreteHEstimator from the provided probabilities.
diff --git a/infomeasure/estimators/entropy/ansb.py b/infomeasure/estimators/entropy/ansb.py
index 88e9fb6..d98aa0c 100644
--- a/infomeasure/estimators/entropy/ansb.py
+++ b/infomeasure/estimators/entropy/ansb.py
@@ -6,7 +6,6 @@ from scipy.special import digamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class AnsbEntropyEstimator(DiscreteHEstimator):
         *data,
         K: int = None,
         undersampled: float = 0.1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the ANSB entropy estimator."""
         super().__init__(*data, base=base)
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index e204e65..fc9d3c0 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -3,7 +3,6 @@
 from numpy import sum as np_sum
 
 from infomeasure.estimators.base import DiscreteHEstimator
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -68,7 +67,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
         *data,
         alpha: float | str,
         K: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the BayesEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kernel.py b/infomeasure/estimators/entropy/kernel.py
index cacf0d3..aa3d361 100644
--- a/infomeasure/estimators/entropy/kernel.py
+++ b/infomeasure/estimators/entropy/kernel.py
@@ -2,7 +2,6 @@
 
 from numpy import column_stack, sum as np_sum, isnan, nan
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import EntropyEstimator
 from ..mixins import WorkersMixin
@@ -129,7 +128,7 @@ class KernelEntropyEstimator(WorkersMixin, EntropyEstimator):
         bandwidth: float | int,
         kernel: str,
         workers: int = 1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the KernelEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index ae3ca0b..f29090b 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -9,7 +9,6 @@ from ..base import EntropyEstimator
 from ..mixins import RandomGeneratorMixin
 from ..utils.array import assure_2d_data
 from ..utils.unit_ball_volume import unit_ball_volume
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -131,7 +130,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         ksg_id: int = 1,
         noise_level=1e-10,
         minkowski_p=inf,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the Kozachenko-Leonenko estimator.
 
diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 8b59c65..daa8236 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -10,7 +10,6 @@ from scipy.special import loggamma, digamma, polygamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -80,7 +79,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
     np.float64(1.4526460202102247)
     """
 
-    def __init__(self, *data, K: int = None, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, K: int = None, base: LogBaseType = None):
         """Initialize the NSB entropy estimator."""
         super().__init__(*data, base=base)
         self.k_given = K
diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index b936cfc..e8edff6 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -15,7 +15,6 @@ from numpy import (
 
 from ..base import EntropyEstimator
 from ..utils.ordinal import reduce_joint_space, symbolize_series
-from ... import Config
 from ...utils.config import logger
 from ...utils.data import DiscreteData
 from ...utils.types import LogBaseType
@@ -67,7 +66,7 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         embedding_dim: int,
         step_size: int = 1,
         stable: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the OrdinalEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/renyi.py b/infomeasure/estimators/entropy/renyi.py
index 3888921..3e6fbec 100644
--- a/infomeasure/estimators/entropy/renyi.py
+++ b/infomeasure/estimators/entropy/renyi.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -49,7 +48,7 @@ class RenyiEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         alpha: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the RenyiEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/tsallis.py b/infomeasure/estimators/entropy/tsallis.py
index 568ed8e..c0a27fb 100644
--- a/infomeasure/estimators/entropy/tsallis.py
+++ b/infomeasure/estimators/entropy/tsallis.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -47,7 +46,7 @@ class TsallisEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         q: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the TsallisMIEstimator.
 
diff --git a/infomeasure/estimators/mutual_information/ansb.py b/infomeasure/estimators/mutual_information/ansb.py
index b080d05..5991b42 100644
--- a/infomeasure/estimators/mutual_information/ansb.py
+++ b/infomeasure/estimators/mutual_information/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -40,7 +39,7 @@ class BaseAnsbMIEstimator(ABC):
         cond=None,
         undersampled: float = 0.1,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Ansb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bayes.py b/infomeasure/estimators/mutual_information/bayes.py
index 68cb40e..b81c44f 100644
--- a/infomeasure/estimators/mutual_information/bayes.py
+++ b/infomeasure/estimators/mutual_information/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseBayesMIEstimator(ABC):
         alpha: float | str,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bayes estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bonachela.py b/infomeasure/estimators/mutual_information/bonachela.py
index 6ba53fb..ab57fb0 100644
--- a/infomeasure/estimators/mutual_information/bonachela.py
+++ b/infomeasure/estimators/mutual_information/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseBonachelaMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bonachela estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_shen.py b/infomeasure/estimators/mutual_information/chao_shen.py
index 1ec5f35..629b403 100644
--- a/infomeasure/estimators/mutual_information/chao_shen.py
+++ b/infomeasure/estimators/mutual_information/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoShenMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoShen estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_wang_jost.py b/infomeasure/estimators/mutual_information/chao_wang_jost.py
index eab3efa..26a1030 100644
--- a/infomeasure/estimators/mutual_information/chao_wang_jost.py
+++ b/infomeasure/estimators/mutual_information/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoWangJostMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoWangJost estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/discrete.py b/infomeasure/estimators/mutual_information/discrete.py
index a12aa98..fe405d8 100644
--- a/infomeasure/estimators/mutual_information/discrete.py
+++ b/infomeasure/estimators/mutual_information/discrete.py
@@ -16,7 +16,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import reduce_joint_space
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseDiscreteMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/grassberger.py b/infomeasure/estimators/mutual_information/grassberger.py
index 6208a27..865d333 100644
--- a/infomeasure/estimators/mutual_information/grassberger.py
+++ b/infomeasure/estimators/mutual_information/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseGrassbergerMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Grassberger estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index f7dea33..4afa6c1 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -12,7 +12,6 @@ from ..base import (
 from ..mixins import WorkersMixin
 from ..utils.array import assure_2d_data
 from ..utils.kde import kde_probability_density_function
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -53,7 +52,7 @@ class BaseKernelMIEstimator(WorkersMixin, ABC):
         offset: int = 0,
         workers: int = 1,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with specific bandwidth and kernel.
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index f3b9720..5963ed8 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalMutualInformationEstimator,
 )
 from ..utils.array import assure_2d_data
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -57,7 +56,7 @@ class BaseKSGMIEstimator(ABC):
         minkowski_p=inf,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/miller_madow.py b/infomeasure/estimators/mutual_information/miller_madow.py
index 920354a..c34df35 100644
--- a/infomeasure/estimators/mutual_information/miller_madow.py
+++ b/infomeasure/estimators/mutual_information/miller_madow.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_global,
     conditional_mutual_information_local,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -41,7 +40,7 @@ class BaseMillerMadowMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/nsb.py b/infomeasure/estimators/mutual_information/nsb.py
index 0d3a397..cf22e7b 100644
--- a/infomeasure/estimators/mutual_information/nsb.py
+++ b/infomeasure/estimators/mutual_information/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -39,7 +38,7 @@ class BaseNsbMIEstimator(ABC):
         cond=None,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Nsb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 0072c05..426ee8b 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import symbolize_series, reduce_joint_space
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -69,7 +68,7 @@ class BaseOrdinalMIEstimator(ABC):
         step_size: int = 1,
         stable: bool = False,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the OrdinalMIEstimator."""
diff --git a/infomeasure/estimators/mutual_information/renyi.py b/infomeasure/estimators/mutual_information/renyi.py
index 734343d..0d07617 100644
--- a/infomeasure/estimators/mutual_information/renyi.py
+++ b/infomeasure/estimators/mutual_information/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseRenyiMIEstimator(ABC):
         noise_level=1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/shrink.py b/infomeasure/estimators/mutual_information/shrink.py
index f1a22cc..8226eea 100644
--- a/infomeasure/estimators/mutual_information/shrink.py
+++ b/infomeasure/estimators/mutual_information/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseShrinkMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Shrink estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/tsallis.py b/infomeasure/estimators/mutual_information/tsallis.py
index faffd02..380d86a 100644
--- a/infomeasure/estimators/mutual_information/tsallis.py
+++ b/infomeasure/estimators/mutual_information/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseTsallisMIEstimator(ABC):
         noise_level: float = 1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseTsallisMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/zhang.py b/infomeasure/estimators/mutual_information/zhang.py
index 1d8375f..78d123b 100644
--- a/infomeasure/estimators/mutual_information/zhang.py
+++ b/infomeasure/estimators/mutual_information/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseZhangMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Zhang estimator with specific parameters.
diff --git a/infomeasure/estimators/transfer_entropy/ansb.py b/infomeasure/estimators/transfer_entropy/ansb.py
index f4a5a0c..e086624 100644
--- a/infomeasure/estimators/transfer_entropy/ansb.py
+++ b/infomeasure/estimators/transfer_entropy/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -55,7 +54,7 @@ class BaseAnsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseAnsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bayes.py b/infomeasure/estimators/transfer_entropy/bayes.py
index 549c32e..1ef7285 100644
--- a/infomeasure/estimators/transfer_entropy/bayes.py
+++ b/infomeasure/estimators/transfer_entropy/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -63,7 +62,7 @@ class BaseBayesTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBayesTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bonachela.py b/infomeasure/estimators/transfer_entropy/bonachela.py
index 54dc871..7df0ec1 100644
--- a/infomeasure/estimators/transfer_entropy/bonachela.py
+++ b/infomeasure/estimators/transfer_entropy/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseBonachelaTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBonachelaTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_shen.py b/infomeasure/estimators/transfer_entropy/chao_shen.py
index eef5b3c..7313f36 100644
--- a/infomeasure/estimators/transfer_entropy/chao_shen.py
+++ b/infomeasure/estimators/transfer_entropy/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoShenTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoShenTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
index 141cd90..d5918b3 100644
--- a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoWangJostTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoWangJostTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/discrete.py b/infomeasure/estimators/transfer_entropy/discrete.py
index aa06de1..05e7b16 100644
--- a/infomeasure/estimators/transfer_entropy/discrete.py
+++ b/infomeasure/estimators/transfer_entropy/discrete.py
@@ -12,7 +12,6 @@ from ..mixins import DiscreteTEMixin
 from ..utils.discrete_transfer_entropy import combined_te_form
 from ..utils.ordinal import reduce_joint_space
 from ..utils.te_slicing import cte_observations, te_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseDiscreteTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/grassberger.py b/infomeasure/estimators/transfer_entropy/grassberger.py
index 07a63fb..450ada6 100644
--- a/infomeasure/estimators/transfer_entropy/grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseGrassbergerTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseGrassbergerTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kernel.py b/infomeasure/estimators/transfer_entropy/kernel.py
index b7462db..190bea7 100644
--- a/infomeasure/estimators/transfer_entropy/kernel.py
+++ b/infomeasure/estimators/transfer_entropy/kernel.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import isinf, isnan
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -65,7 +64,7 @@ class BaseKernelTEEstimator(WorkersMixin, ABC):
         cond_hist_len: int = 1,
         workers: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseKernelTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 65911e6..da9a9f2 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalTransferEntropyEstimator,
 )
 from ..utils.te_slicing import te_observations, cte_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class BaseKSGTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseKSGTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/miller_madow.py b/infomeasure/estimators/transfer_entropy/miller_madow.py
index 3c10abf..099433e 100644
--- a/infomeasure/estimators/transfer_entropy/miller_madow.py
+++ b/infomeasure/estimators/transfer_entropy/miller_madow.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import ndarray
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import (
     ConditionalTransferEntropyEstimator,
@@ -52,7 +51,7 @@ class BaseMillerMadowTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/nsb.py b/infomeasure/estimators/transfer_entropy/nsb.py
index 199a781..0d7f563 100644
--- a/infomeasure/estimators/transfer_entropy/nsb.py
+++ b/infomeasure/estimators/transfer_entropy/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseNsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseNsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/ordinal.py b/infomeasure/estimators/transfer_entropy/ordinal.py
index 16597ee..e6f1a83 100644
--- a/infomeasure/estimators/transfer_entropy/ordinal.py
+++ b/infomeasure/estimators/transfer_entropy/ordinal.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import integer, issubdtype, ndarray
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -76,7 +75,7 @@ class BaseOrdinalTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseOrdinalTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/renyi.py b/infomeasure/estimators/transfer_entropy/renyi.py
index 6bafdb1..65413c9 100644
--- a/infomeasure/estimators/transfer_entropy/renyi.py
+++ b/infomeasure/estimators/transfer_entropy/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -71,7 +70,7 @@ class BaseRenyiTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseRenyiTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/shrink.py b/infomeasure/estimators/transfer_entropy/shrink.py
index 760dc45..5637bd5 100644
--- a/infomeasure/estimators/transfer_entropy/shrink.py
+++ b/infomeasure/estimators/transfer_entropy/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseShrinkTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseShrinkTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/tsallis.py b/infomeasure/estimators/transfer_entropy/tsallis.py
index 14149ca..1c5c1eb 100644
--- a/infomeasure/estimators/transfer_entropy/tsallis.py
+++ b/infomeasure/estimators/transfer_entropy/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -72,7 +71,7 @@ class BaseTsallisTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseTsallisTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/zhang.py b/infomeasure/estimators/transfer_entropy/zhang.py
index a9bcf46..1549e30 100644
--- a/infomeasure/estimators/transfer_entropy/zhang.py
+++ b/infomeasure/estimators/transfer_entropy/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseZhangTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseZhangTEEstimator.
-- 
2.43.0


From dfe2c74ae26e0f0782f038a15b849c2415b52a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 02/33] fix: honour stable=True in every ordinal entropy code
 path

The simplified cases for embedding_dim 2 and 3, joint entropy and cross-entropy
ignored `stable`, so ties were ranked differently between them (e.g. KLD(p, p) != 0).
---
 infomeasure/estimators/entropy/ordinal.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index e8edff6..63fbe06 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -184,9 +184,10 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         return subarray_patterns[: len(a) - n + 1]
 
     def _estimate_probabilities(self, time_series, embedding_dim):
-        if embedding_dim == 2 and self.step_size == 1:
+        # The simplified cases do not preserve the order of equal elements
+        if embedding_dim == 2 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_2(time_series)
-        if embedding_dim == 3 and self.step_size == 1:
+        if embedding_dim == 3 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_3(time_series)
 
         # Get the length of the time series
@@ -225,7 +226,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         """Calculate the joint entropy of the data."""
         # Symbolize separately (permutation patterns -> Lehmer codes)
         symbols = (
-            symbolize_series(marginal, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                marginal,
+                self.embedding_dim,
+                self.step_size,
+                to_int=True,
+                stable=self.stable,
+            )
             for marginal in self.data[0]  # data is tuple of time series
         )  # shape (n - (embedding_dim - 1) * step_size, num_joints)
         # Reduce the joint space
@@ -265,7 +272,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
                 "This is to have a clear definition for the support set."
             )
         symbols = tuple(
-            symbolize_series(var, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                var,
+                self.embedding_dim,
+                self.step_size,
+                to_int=True,
+                stable=self.stable,
+            )
             for var in self.data
         )
         data_p = DiscreteData.from_data(symbols[0])
-- 
2.43.0


From 73ab9f40d1244b02767183204dc1b086ad78dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 03/33] fix: use the same pattern labels for all ordinal
 distributions

For embedding_dim 3 two labels were swapped with respect to the argsort labels, and a
series of a single window was labelled without regard to step_size, so that the JSD of
equal patterns was not zero.
---
 infomeasure/estimators/entropy/ordinal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 63fbe06..a8f19f0 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -134,13 +134,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         gt3 = time_series[:-2] < time_series[2:]  # 0 < 2
         count = Counter(zip(gt1, gt2, gt3))
         probs = array([v / (len(time_series) - 2) for v in count.values()])
-        # Translate bool keys to numbers (rename keys)
+        # Translate bool keys to numbers (rename keys), same patterns as from argsort
         bool_to_num_map = {
             (True_, True_, True_): (0, 1, 2),
             (True_, False_, True_): (0, 2, 1),
             (False_, True_, True_): (1, 0, 2),
-            (True_, False_, False_): (1, 2, 0),
-            (False_, True_, False_): (2, 0, 1),
+            (True_, False_, False_): (2, 0, 1),
+            (False_, True_, False_): (1, 2, 0),
             (False_, False_, False_): (2, 1, 0),
         }
         dist_dict = {
@@ -210,7 +210,9 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             self.patterns = [0] * len(self.data[0])
             return 0.0
         elif (self.embedding_dim - 1) * self.step_size + 1 == self.data[0].shape[0]:
-            self.dist_dict = {tuple(self.data[0].argsort()): 1.0}
+            window = self.data[0][:: self.step_size]
+            pattern = window.argsort(kind="stable" if self.stable else None)
+            self.dist_dict = {tuple(pattern): 1.0}
             self.patterns = [list(self.dist_dict.keys())[0]]
             return 0.0
         probabilities, self.dist_dict, self.patterns = self._estimate_probabilities(
-- 
2.43.0


From b9575bfbba5b98d0b0eb116f084f68ba4295ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 04/33] fix: local values of joint ordinal entropy and for
 embedding_dim 1

---
 infomeasure/estimators/entropy/ordinal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index a8f19f0..203e3a9 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -257,7 +257,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             The calculated local values of entropy.
         """
         # Patterns is length n - (embedding_dim - 1) * step_size
-        p_local = [self.dist_dict[tuple(pattern)] for pattern in self.patterns]
+        # patterns of joint entropies and for embedding_dim 1 are integers
+        p_local = [
+            self.dist_dict[
+                pattern if issubdtype(type(pattern), integer) else tuple(pattern)
+            ]
+            for pattern in self.patterns
+        ]
         return -self._log_base(p_local)
 
     def _cross_entropy(self) -> float:
-- 
2.43.0


From fdf2e3754d395ea8a4ac67b4fd926e71738db392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 05/33] fix: ordinal MI and CMI statistical tests use the
 permuted data

The symbols were computed once at construction, so every permutation or bootstrap
sample returned the observed value again.
---
 .../estimators/mutual_information/ordinal.py    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 426ee8b..71dbe26 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -115,6 +115,17 @@ class BaseOrdinalMIEstimator(ABC):
         self.step_size = step_size
         self.stable = stable
 
+        self._symbolized_data = None
+        self._symbolize()
+
+    def _symbolize(self):
+        """Symbolize the data (and condition), if it changed since the last time.
+
+        The data is exchanged when testing with permuted or resampled data.
+        """
+        if self._symbolized_data is self.data:
+            return
+        self._symbolized_data = self.data
         self.symbols = [
             reduce_joint_space(
                 symbolize_series(
@@ -129,7 +140,7 @@ class BaseOrdinalMIEstimator(ABC):
         ]  # Convert permutation tuples to integers for efficiency (reduce_joint_space),
         # so mutual_information_global can use crosstab method internally
 
-        if cond is not None:
+        if hasattr(self, "cond"):
             self.symbols_cond = reduce_joint_space(
                 symbolize_series(
                     self.cond,
@@ -179,6 +190,7 @@ class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
         if self.embedding_dim == 1:
             return 0.0
 
+        self._symbolize()
         return mutual_information_global(*self.symbols, log_func=self._log_base)
 
     def _extract_local_values(self) -> ndarray[float]:
@@ -189,6 +201,7 @@ class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
         ndarray[float]
             The calculated local values of mi.
         """
+        self._symbolize()
         return mutual_information_local(*self.symbols, log_func=self._log_base)
 
 
@@ -232,6 +245,7 @@ class OrdinalCMIEstimator(
         if self.embedding_dim == 1:
             return 0.0
 
+        self._symbolize()
         return conditional_mutual_information_global(
             *self.symbols,
             cond=self.symbols_cond,
@@ -246,6 +260,7 @@ class OrdinalCMIEstimator(
         ndarray[float]
             The calculated local values of cmi.
         """
+        self._symbolize()
         return conditional_mutual_information_local(
             *self.symbols, cond=self.symbols_cond, log_func=self._log_base
         )
-- 
2.43.0


From a71cc4cff3335242f6d0f57789a34dd5e2c3cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 06/33] fix: add noise to the KSG condition only once

The noise was added once per sample, scaling its standard deviation by sqrt(N)
compared to the requested noise_level.
---
 .../mutual_information/kraskov_stoegbauer_grassberger.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 5963ed8..391b695 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -282,7 +282,7 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
             for j in range(len(data[0])):
                 for i in range(len(data)):
                     data[i][j] += self.rng.normal(0, self.noise_level, data[i][j].shape)
-                cond += self.rng.normal(0, self.noise_level, cond.shape)
+            cond += self.rng.normal(0, self.noise_level, cond.shape)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
-- 
2.43.0


From 59cc9f97b33e4e003e4557ecfd608c1273dabb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 07/33] fix: kernel CMI with multi-dimensional variables or
 condition

The marginal densities picked single columns of the joint data by variable index, so any
variable or condition with more than one column gave densities of the wrong columns.
---
 infomeasure/estimators/mutual_information/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index 4afa6c1..f92ae7a 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -3,7 +3,6 @@
 from abc import ABC
 
 from numpy import column_stack, ndarray, prod
-from numpy import newaxis
 
 from ..base import (
     MutualInformationEstimator,
@@ -230,15 +229,15 @@ class KernelCMIEstimator(BaseKernelMIEstimator, ConditionalMutualInformationEsti
                 ),
                 *(
                     kde_probability_density_function(
-                        joint_all[:, [i, -1]],
+                        column_stack([var, self.cond]),
                         self.bandwidth,
                         kernel=self.kernel,
                         workers=self.n_workers,
                     )
-                    for i in range(len(self.data))
+                    for var in self.data
                 ),
                 kde_probability_density_function(
-                    joint_all[:, -1, newaxis],
+                    self.cond,
                     self.bandwidth,
                     kernel=self.kernel,
                     workers=self.n_workers,
-- 
2.43.0


From fab83037830c875cdf859307bfced17101df5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 08/33] fix: check the length of every variable of a CMI

Only the first two variables were compared, further ones of different length failed
with obscure errors, and a single variable with an IndexError.
---
 infomeasure/estimators/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 1a6b7c0..8a719fe 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -649,10 +649,14 @@ class ConditionalMutualInformationEstimator(
             raise ValueError("Conditional data must be provided for CMI estimation.")
         if offset not in (None, 0):
             raise ValueError("Offset is not supported for CMI estimation.")
-        if len(data[0]) != len(data[1]) or len(data[0]) != len(cond):
+        if len(data) < 2:
+            raise ValueError(
+                "At least two data arrays are required for CMI estimation."
+            )
+        if any(len(var) != len(cond) for var in data):
             raise ValueError(
                 "Data arrays must be of the same length, "
-                f"not {len(data[0])}, {len(data[1])}, and {len(cond)}."
+                f"not {', '.join(str(len(var)) for var in data)}, and {len(cond)}."
             )
         self.data = tuple(asarray(d) for d in data)
         self.cond = asarray(cond)
-- 
2.43.0


From 76a1b630b39b2022cce8ef374e1da7ec65e39e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 09/33] fix: estimator() passes step_size on to ordinal
 entropies and MI

It was silently dropped, so the result differed from the functional interface.
---
 infomeasure/estimators/functional.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index d48dc44..fda8066 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -695,6 +695,14 @@ def estimator(
     if measure is None:
         raise ValueError("``measure`` is required.")
     measure_comp = measure.lower().replace(" ", "_").replace("-", "_")
+    # Apart from the transfer entropies, only the ordinal estimators have a step size
+    if measure_comp not in [
+        "transfer_entropy",
+        "te",
+        "conditional_transfer_entropy",
+        "cte",
+    ] and str(approach).lower() in ["ordinal", "symbolic", "permutation"]:
+        kwargs["step_size"] = step_size
     if measure_comp in ["entropy", "h", "cross_entropy", "hx"]:
         if len(data) == 0 and measure_comp in ["entropy", "h"]:
             raise ValueError("``data`` is required for entropy estimation.")
-- 
2.43.0


From 877f4de06dbe192861a930ddee4eb72ada98903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 10/33] fix: discrete MI of more than two variables with a
 constant variable

A constant variable made the (C)MI of all variables zero, although the other variables
still share information.
---
 .../utils/discrete_interaction_information.py    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index e3c1cc8..58a42b5 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -108,8 +108,8 @@ def _mutual_information_global_nd_int(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if at most one of the marginal entropies is not zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -306,8 +306,8 @@ def mutual_information_local(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if at most one of the marginal entropies is not zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return zeros(len(data[0]))
 
     # To get local values we iterate over *data
@@ -430,8 +430,8 @@ def _conditional_mutual_information_global_nd_int(
     )
     # all axes, except cond
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if at most one of the marginal entropies is not zero
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -541,8 +541,8 @@ def conditional_mutual_information_local(
         contingency_coo.sum(axis=tuple(range(contingency_coo.ndim - 1)))
     )
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if at most one of the marginal entropies is not zero
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return zeros(len(data[0])).astype(float)
 
     # To get local values we iterate over *data
-- 
2.43.0


From 7c2031ff4703db03873aad7c683ea660faf6942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 11/33] fix: overflow in discrete (C)MI of many variables

The product of the marginal counts was calculated as uint64 and wrapped around for e.g.
eight variables with 1000 samples, giving an arbitrary result.
---
 .../utils/discrete_interaction_information.py   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index 58a42b5..d9bd211 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -114,11 +114,9 @@ def _mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
-        [
-            count.take(idx).astype(uint64, copy=False)
-            for count, idx in zip(count_marginals, idxs)
-        ],
+    # Sum the logarithms, the product of many counts would overflow.
+    log_outer_counts = np_sum(
+        [log_func(count.take(idx)) for count, idx in zip(count_marginals, idxs)],
         axis=0,
     )
 
@@ -129,7 +127,7 @@ def _mutual_information_global_nd_int(
     # Logarithm of the non-zero elements
     log_p_joint = log_func(vals)
 
-    log_outer = -log_func(outer) + len(count_marginals) * log_func(contingency_sum)
+    log_outer = -log_outer_counts + len(count_marginals) * log_func(contingency_sum)
     # Combine the terms to calculate the mutual information
     mi = p_joint * (log_p_joint - log_func(contingency_sum)) + p_joint * log_outer
 
@@ -436,9 +434,10 @@ def _conditional_mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
+    # Sum the logarithms, the product of many counts would overflow.
+    log_outer_counts = np_sum(
         [
-            count[idx, idxs[-1]].astype(uint64, copy=False)
+            log_func(count[idx, idxs[-1]])
             for count, idx in zip(count_marginals_cond, idxs[:-1])
         ],
         axis=0,
@@ -452,7 +451,7 @@ def _conditional_mutual_information_global_nd_int(
     p_cond = count_cond.take(idxs[-1]).astype(uint64, copy=False)
     log_p_joint = log_func(vals * p_cond) - log_func(contingency_sum)
 
-    log_outer = -log_func(outer) + sum(
+    log_outer = -log_outer_counts + sum(
         log_func(count_m.sum()) for count_m in count_marginals_cond[:-1]
     )
     # Combine the terms to calculate the mutual information
-- 
2.43.0


From c82b17743b8d6197919ba641794f2d8dff531eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 12/33] fix: joint space of variables with different data types

Stacking the variables converted them to a common type first, so e.g. large integers
joined with floats were merged into the same symbol.
---
 infomeasure/estimators/utils/ordinal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/infomeasure/estimators/utils/ordinal.py b/infomeasure/estimators/utils/ordinal.py
index 54661bf..778c9e7 100644
--- a/infomeasure/estimators/utils/ordinal.py
+++ b/infomeasure/estimators/utils/ordinal.py
@@ -6,6 +6,7 @@ from typing import Generator
 from numpy import (
     ndarray,
     argsort,
+    asarray,
     apply_along_axis,
     zeros,
     sum as np_sum,
@@ -200,6 +201,10 @@ def reduce_joint_space(data: ndarray | tuple[ndarray] | Generator) -> ndarray:
     if isinstance(data, Generator):
         data = tuple(data)
     if isinstance(data, tuple):
+        data = tuple(asarray(var) for var in data)
+        if len({var.dtype for var in data}) > 1:
+            # Stacking converts to a common type, which can merge different values
+            data = tuple(unique(var, axis=0, return_inverse=True)[1] for var in data)
         data = column_stack(data)
     if data.ndim == 2:
         # Reduce the data to the joint space using the numpy unique function
-- 
2.43.0


From 4f30153673e305f7f746eb230ff96446f2adfb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 13/33] fix: discrete MI between one- and multi-dimensional
 variables

The rows of one-dimensional variables are not iterable and raised a TypeError.
---
 .../estimators/utils/discrete_interaction_information.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index d9bd211..df5bcbc 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -202,6 +202,8 @@ def _mutual_information_global_nd_other(
 
     Same as :func:`_mutual_information_global_nd_int`, but for non-integer data.
     """
+    # one-dimensional variables have rows of one element
+    data = tuple(var[:, None] if var.ndim == 1 else var for var in data)
     # data is a tuple of ndarrays, for joint data, concatenate these rows
     # joint_data = [tuple(row) for row in column_stack(data)]
     joint_data = [tuple(tuple(val) for val in row) for row in zip(*data)]
-- 
2.43.0


From c4b95d53f60712bf9f8a4b5b4d40363e602e18a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 14/33] fix: KL cross-entropy averages over the first sample

---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index f29090b..32e8b4d 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -247,7 +247,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         distances = distances[:, -1]
 
         # Constants for the entropy formula
-        M = self.data[1].shape[0]
+        N, M = self.data[0].shape[0], self.data[1].shape[0]
         d = self.data[1].shape[1]
         # Volume of the d-dimensional unit ball for maximum norm
         c_d = unit_ball_volume(d, r=1 / 2, p=self.minkowski_p)
@@ -261,7 +261,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             -psi_k
             + digamma(M)
             + log(c_d)
-            + d * np_sum(log(2 * distances[distances > 0])) / M
+            + d * np_sum(log(2 * distances[distances > 0])) / N
         )
         # return in desired base
         return hx / log(self.base) if self.base != "e" else hx
-- 
2.43.0


From 1e9dc1483630f2339af2d7933fd4a655d2d7fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 15/33] fix: numerically stable Chao-Wang-Jost correction for
 long samples

---
 infomeasure/estimators/entropy/chao_wang_jost.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/entropy/chao_wang_jost.py b/infomeasure/estimators/entropy/chao_wang_jost.py
index e4df93c..7eb42e8 100644
--- a/infomeasure/estimators/entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/entropy/chao_wang_jost.py
@@ -1,6 +1,6 @@
 """Module for the Chao Wang Jost entropy estimator."""
 
-from numpy import log
+from numpy import arange, log, log1p
 from numpy import sum as np_sum
 from scipy.special import digamma
 
@@ -131,8 +131,15 @@ class ChaoWangJostEntropyEstimator(DiscreteHEstimator):
         # Second part: correction term when A != 1
         if A != 1 and f1 > 0:
             # Calculate sum_{r=1}^{N-1} (1/r) * (1-A)^r
-            p2 = sum(1 / r * (1 - A) ** r for r in range(1, N))
-            correction = f1 / N * (1 - A) ** (1 - N) * (-log(A) - p2)
+            decay = -log1p(-A)
+            if decay * (N - 1) < 10:
+                p2 = sum(1 / r * (1 - A) ** r for r in range(1, N))
+                correction = f1 / N * (1 - A) ** (1 - N) * (-log(A) - p2)
+            else:
+                # -log(A) and the sum cancel to the tail of the same series,
+                # which the factor (1 - A)^(1 - N) would blow up the rounding error of
+                j = arange(int(40 / decay) + 1)
+                correction = f1 / N * np_sum((1 - A) ** (j + 1) / (N + j))
             cwj += correction
 
         # Convert to the desired base
-- 
2.43.0


From c21f3152c9cefffc113fedcf98f2ba7dda05d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 16/33] fix: any letter case of the approach for MI of a single
 variable

---
 infomeasure/estimators/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index fda8066..605a6fc 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -745,7 +745,7 @@ def estimator(
                 "Using normal entropy estimator."
             )
             EstimatorClass = _get_estimator(
-                entropy_estimators, mi_entropy_map[approach]
+                entropy_estimators, mi_entropy_map.get(str(approach).lower())
             )
             return EstimatorClass(data[0], **kwargs)
         if cond is not None:
-- 
2.43.0


From 8ba7e4a78029d972a23cb2ffaf16cfa6e9298867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 17/33] fix: any letter case of the min-max prior

---
 infomeasure/estimators/entropy/bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index fc9d3c0..deed92b 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -136,7 +136,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
             return 1.0
         elif alpha.lower() == "sch-grass":
             return 1 / K
-        elif alpha == "min-max":
+        elif alpha.lower() == "min-max":
             return N**0.5 / K
         raise ValueError(
             f"Concentration parameter '{alpha}' not recognized. "
-- 
2.43.0


From b10032a4578c08c6808134be2a5628070263e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 18/33] fix: cross-entropy of nearest-neighbour estimators with
 k=1

---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 4 ++--
 infomeasure/estimators/utils/exponential_family.py    | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 32e8b4d..d64f1a4 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -241,8 +241,8 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy_q)
 
-        # Find the k-th nearest neighbors for each point
-        distances, _ = tree.query(data_noisy_p, self.k, p=self.minkowski_p)
+        # Find the k-th nearest neighbors for each point (a list keeps the axis for k=1)
+        distances, _ = tree.query(data_noisy_p, [self.k], p=self.minkowski_p)
         # Only keep the k-th nearest neighbor distance
         distances = distances[:, -1]
 
diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index 72875f5..7e77e3e 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -60,7 +60,8 @@ def calculate_common_entropy_components(data, k, at=None):
     tree = KDTree(data)
 
     # Get the k-th nearest neighbor distances
-    rho_k = tree.query(at, k=k)[0][:, k - 1]  # k+1 because the point itself is included
+    # (k was increased if the point itself is included; a list keeps the axis for k=1)
+    rho_k = tree.query(at, k=[k])[0][:, 0]
 
     return V_m, rho_k, N, m
 
-- 
2.43.0


From fabfb6920e2d0932232bdc5cf8204b79c960cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 19/33] fix: rank of Gaussian kernel data independent of its
 scale

---
 infomeasure/estimators/utils/kde.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index d2c083a..d918516 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -7,13 +7,16 @@ from numpy import (
     array_split,
     concatenate,
     cov,
+    diag,
     dot,
     inf,
     issubdtype,
     number,
+    outer,
+    sqrt,
 )
 from numpy import sum as np_sum
-from numpy.linalg import eig
+from numpy.linalg import eig, eigvalsh
 from scipy.spatial import KDTree
 from scipy.stats import gaussian_kde
 
@@ -122,7 +125,8 @@ def gaussian_kernel_densities(
     workers : int, optional
         Number of workers to use for parallel processing. Default is 1.
     eigen_threshold : float, optional
-        Threshold for eigenvalues to determine rank of data. Default is 1e-10.
+        Threshold for eigenvalues (of the data scaled to unit variances) to determine
+        rank of data. Default is 1e-10.
 
     Returns
     -------
@@ -138,8 +142,13 @@ def gaussian_kernel_densities(
         sorted_indices = argsort(values)[::-1]
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
-        # Get the number of eigenvalues greater than the threshold
-        num_non_zero_eigenvalues = np_sum(values_sorted > eigen_threshold)
+        # Get the number of eigenvalues greater than the threshold, for unit variances
+        # as the rank of the data does not depend on the scale of its dimensions
+        scale = sqrt(diag(covariance_matrix))
+        scale[scale == 0] = 1.0
+        num_non_zero_eigenvalues = np_sum(
+            eigvalsh(covariance_matrix / outer(scale, scale)) > eigen_threshold
+        )
         # Check projection necessary
         if num_non_zero_eigenvalues < data.shape[0]:
             logger.debug(
-- 
2.43.0


From 8c325426fad1f697c8f063b621440031733e76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 20/33] fix: refuse negative and non-numeric logarithm bases in
 every estimator

---
 infomeasure/estimators/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 8a719fe..b9a65b3 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -3,6 +3,7 @@
 import warnings
 from abc import ABC, abstractmethod
 from io import UnsupportedOperation
+from numbers import Number
 from typing import Generic, final, Sequence
 
 from numpy import (
@@ -70,6 +71,8 @@ class Estimator(Generic[EstimatorType], ABC):
         self.res_local = None
         # No explicit base: use the default configured at this moment
         self.base = Config.get("base") if base is None else base
+        if self.base != "e" and (not isinstance(self.base, Number) or self.base < 0):
+            raise ValueError(f"Logarithm base must be positive, not {self.base}.")
 
     @final
     def calculate(self) -> None:
-- 
2.43.0


From 8ffcf76720cc138d4e7e895c71c983e4a16cbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 21/33] fix: validate the neighbour count of the KSG estimators

---
 .../estimators/entropy/kozachenko_leonenko.py | 12 ++++++++++++
 .../kraskov_stoegbauer_grassberger.py         | 11 +++++++++++
 .../kraskov_stoegbauer_grassberger.py         | 19 ++++++++++++++++++-
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index d64f1a4..aee9e74 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -182,6 +182,12 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         if self.noise_level and self.noise_level != 0:
             data_noisy += self.rng.normal(0, self.noise_level, self.data[0].shape)
 
+        if self.k >= len(data_noisy):
+            raise ValueError(
+                f"The number of nearest neighbors ({self.k}) must be smaller than "
+                f"the number of observations ({len(data_noisy)})."
+            )
+
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy)
 
@@ -238,6 +244,12 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             data_noisy_p += self.rng.normal(0, self.noise_level, self.data[0].shape)
             data_noisy_q += self.rng.normal(0, self.noise_level, self.data[1].shape)
 
+        if self.k > len(data_noisy_q):
+            raise ValueError(
+                f"The number of nearest neighbors ({self.k}) must not exceed "
+                f"the number of observations ({len(data_noisy_q)})."
+            )
+
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy_q)
 
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 391b695..90eca8b 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -3,6 +3,7 @@
 from abc import ABC
 
 from numpy import column_stack, inf, array, ndarray, log, nextafter
+from numpy import integer, issubdtype
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -107,6 +108,11 @@ class BaseKSGMIEstimator(ABC):
             )
             # Ensure self.cond is a 2D array
             self.cond = assure_2d_data(self.cond)
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive "
+                f"integer, but got {k}."
+            )
         self.k = k
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
@@ -115,6 +121,11 @@ class BaseKSGMIEstimator(ABC):
         self.minkowski_p = minkowski_p
         # Ensure self.data_x and self.data_y are 2D arrays
         self.data = tuple(assure_2d_data(var) for var in self.data)
+        if k >= len(self.data[0]):
+            raise ValueError(
+                f"The number of nearest neighbors ({k}) must be smaller than "
+                f"the number of observations ({len(self.data[0])})."
+            )
 
 
 class KSGMIEstimator(BaseKSGMIEstimator, MutualInformationEstimator):
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index da9a9f2..61c7fa1 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 
-from numpy import array, inf, ndarray, log, nextafter
+from numpy import array, inf, integer, issubdtype, ndarray, log, nextafter
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -130,6 +130,11 @@ class BaseKSGTEEstimator(ABC):
                 base=base,
                 **kwargs,
             )
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive "
+                f"integer, but got {k}."
+            )
         self.k = k
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
@@ -204,6 +209,12 @@ class KSGTEEstimator(BaseKSGTEEstimator, TransferEntropyEstimator):
             resample_src=self.resample_src,
         )
 
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                f"The number of nearest neighbors ({self.k}) must be smaller than "
+                f"the number of observations ({len(joint_space_data)})."
+            )
+
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(joint_space_data)
 
@@ -351,6 +362,12 @@ class KSGCTEEstimator(BaseKSGTEEstimator, ConditionalTransferEntropyEstimator):
             step_size=self.step_size,
         )
 
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                f"The number of nearest neighbors ({self.k}) must be smaller than "
+                f"the number of observations ({len(joint_space_data)})."
+            )
+
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(joint_space_data)
 
-- 
2.43.0


From eedfa314c5993add8e1f6611f70261e2c154f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 22/33] fix: refuse to estimate from no observations

---
 infomeasure/estimators/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index b9a65b3..21da58f 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -340,6 +340,10 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
                 raise ValueError(
                     "All elements of a joint random variable must have the same length."
                 )
+        # without any observation, there is no distribution to estimate from
+        for var in self.data:
+            if len(var) == 0 or (isinstance(var, tuple) and len(var[0]) == 0):
+                raise ValueError("Data must contain at least one observation.")
 
         super().__init__(base=base)
 
@@ -511,6 +515,11 @@ class MutualInformationEstimator(
                 self.data[0][-self.offset :],
                 self.data[1][: self.offset or None],
             )
+        if self.data[0].shape[0] == 0:
+            raise ValueError(
+                "No observations to estimate the MI from: "
+                f"data of length {len(data[0])} with an offset of {self.offset}."
+            )
         # Normalize the data
         self.normalize = normalize
         if self.normalize and any(var.ndim != 1 for var in self.data):
@@ -661,6 +670,8 @@ class ConditionalMutualInformationEstimator(
                 "Data arrays must be of the same length, "
                 f"not {', '.join(str(len(var)) for var in data)}, and {len(cond)}."
             )
+        if len(cond) == 0:
+            raise ValueError("No observations to estimate the CMI from.")
         self.data = tuple(asarray(d) for d in data)
         self.cond = asarray(cond)
         # Normalize the data
-- 
2.43.0


From b622142e595cb5a59304cb0108c24a1361da7866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 23/33] fix: validate support size and concentration of the
 Bayesian entropy estimators

---
 infomeasure/estimators/entropy/ansb.py  | 4 +++-
 infomeasure/estimators/entropy/bayes.py | 8 +++++++-
 infomeasure/estimators/entropy/nsb.py   | 4 +++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/entropy/ansb.py b/infomeasure/estimators/entropy/ansb.py
index d98aa0c..8c7c810 100644
--- a/infomeasure/estimators/entropy/ansb.py
+++ b/infomeasure/estimators/entropy/ansb.py
@@ -1,6 +1,6 @@
 """Module for the Asymptotic NSB entropy estimator."""
 
-from numpy import euler_gamma, log
+from numpy import euler_gamma, integer, issubdtype, log
 from scipy.special import digamma
 
 from infomeasure.estimators.base import DiscreteHEstimator
@@ -72,6 +72,8 @@ class AnsbEntropyEstimator(DiscreteHEstimator):
     ):
         """Initialize the ANSB entropy estimator."""
         super().__init__(*data, base=base)
+        if K is not None and (not issubdtype(type(K), integer) or K <= 0):
+            raise ValueError(f"Support size K must be a positive integer, got {K}.")
         self.k_given = K
         self.undersampled = undersampled
 
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index deed92b..961f66d 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -1,6 +1,6 @@
 """Module for the Bayesian entropy estimator."""
 
-from numpy import sum as np_sum
+from numpy import integer, issubdtype, sum as np_sum
 
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
@@ -85,6 +85,8 @@ class BayesEntropyEstimator(DiscreteHEstimator):
         """
         super().__init__(*data, base=base)
 
+        if K is not None and (not issubdtype(type(K), integer) or K <= 0):
+            raise ValueError(f"Support size K must be a positive integer, got {K}.")
         self.alpha = alpha
         self.K_param = K
 
@@ -120,6 +122,10 @@ class BayesEntropyEstimator(DiscreteHEstimator):
     def _get_alpha(alpha, K, N):
         # Alpha
         if isinstance(alpha, (int, float)):
+            if alpha < 0:
+                raise ValueError(
+                    f"Concentration parameter must not be negative, got {alpha}."
+                )
             return alpha
         elif not isinstance(alpha, str) or (
             isinstance(alpha, str)
diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index daa8236..773c829 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -2,7 +2,7 @@
 
 from functools import lru_cache
 
-from numpy import exp, log, nan
+from numpy import exp, integer, issubdtype, log, nan
 from scipy.integrate import quad
 from scipy.optimize import minimize_scalar, root_scalar
 from scipy.special import loggamma, digamma, polygamma
@@ -82,6 +82,8 @@ class NsbEntropyEstimator(DiscreteHEstimator):
     def __init__(self, *data, K: int = None, base: LogBaseType = None):
         """Initialize the NSB entropy estimator."""
         super().__init__(*data, base=base)
+        if K is not None and (not issubdtype(type(K), integer) or K <= 0):
+            raise ValueError(f"Support size K must be a positive integer, got {K}.")
         self.k_given = K
 
     def _simple_entropy(self):
-- 
2.43.0


From 3dbf9160e24ad4e2288d8dfd9dad2786a3fa3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 24/33] fix: unknown log levels raise a ValueError

---
 infomeasure/utils/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/utils/config.py b/infomeasure/utils/config.py
index c25efb9..9c565d9 100644
--- a/infomeasure/utils/config.py
+++ b/infomeasure/utils/config.py
@@ -214,8 +214,8 @@ class Config:
             If the level is not a valid logging level.
         """
         # get logging representation of level
-        level = level if isinstance(level, int) else getattr(logging, level.upper())
-        logger.setLevel(level)
+        # (unknown names raise a ValueError)
+        logger.setLevel(level if isinstance(level, int) else level.upper())
 
 
 logger.debug(
-- 
2.43.0


From 41f9fc264deb79864c1d76b88cd6d395ec98e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 25/33] fix: refuse to normalise any multi-dimensional variable
 of a CMI

---
 infomeasure/estimators/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 21da58f..c58844e 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -676,9 +676,7 @@ class ConditionalMutualInformationEstimator(
         self.cond = asarray(cond)
         # Normalize the data
         self.normalize = normalize
-        if self.normalize and (
-            self.data[0].ndim != 1 or self.data[1].ndim != 1 or self.cond.ndim != 1
-        ):
+        if self.normalize and any(var.ndim != 1 for var in (*self.data, self.cond)):
             raise ValueError("Data arrays must be 1D for normalization.")
         if self.normalize:
             self.data = tuple(normalize_data_0_1(var) for var in self.data)
-- 
2.43.0


From fd6961820ddee4c429bb34514629824d596ade56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 26/33] fix: keep the sample axis of kernel densities of a
 single sample

---
 infomeasure/estimators/utils/kde.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index d918516..5b33643 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -95,10 +95,7 @@ def kde_probability_density_function(
             return_length=True,
             workers=workers,
         )
-        densities = counts / (N * volume)
-
-        # Squeeze the densities array to remove any single-dimensional entries
-        return densities.squeeze()
+        return counts / (N * volume)
     # Another approach to box kernel density estimation
     else:  # TODO: Add more kernel types as needed
         raise ValueError(f"Unsupported kernel type: {kernel}. Use 'gaussian' or 'box'.")
@@ -175,7 +172,7 @@ def query_chunk(params):
     """Evaluate KDE on a chunk of data."""
     full_data, query_data, bandwidth = params
     kde = gaussian_kde(full_data, bw_method=bandwidth)
-    return kde.evaluate(query_data).squeeze()
+    return kde.evaluate(query_data)
 
 
 def parallel_kde_evaluate(data, at, bandwidth, workers):
@@ -202,7 +199,7 @@ def parallel_kde_evaluate(data, at, bandwidth, workers):
     if workers == 1 or data.shape[1] < 20000:
         logger.debug(f"Evaluating kde on a single worker with query size {at.shape}.")
         kde = gaussian_kde(data, bw_method=bandwidth)
-        return kde.evaluate(at).squeeze()
+        return kde.evaluate(at)
 
     workers = min(workers, max(1, at.shape[1] // 8000))
     query_chunks = array_split(at, workers, axis=1)
-- 
2.43.0


From aa36c08e417b25c089e28a7b1957e502a823f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 27/33] fix: normalise integer data without overflow of their
 type

---
 infomeasure/estimators/utils/normalize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/infomeasure/estimators/utils/normalize.py b/infomeasure/estimators/utils/normalize.py
index 7268fef..ed87a0e 100644
--- a/infomeasure/estimators/utils/normalize.py
+++ b/infomeasure/estimators/utils/normalize.py
@@ -1,5 +1,6 @@
 """Normalize a time series."""
 
+from numpy import asarray
 from numpy import max as np_max
 from numpy import min as np_min
 from numpy import ndarray
@@ -27,6 +28,8 @@ def normalize_data_0_1(data: ndarray) -> ndarray:
            [0.5, 0.5],
            [1. , 1. ]])
     """
+    # differences of integers can exceed the range of their type
+    data = asarray(data, dtype=float)
     min_vals = np_min(data, axis=0)
     max_vals = np_max(data, axis=0)
     return (data - min_vals) / (max_vals - min_vals)
-- 
2.43.0


From 0c531691a22deb36de53e20c8f23f7046dcd5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 28/33] fix: NSB integration of an overflowing posterior weight
 crashed the interpreter

---
 infomeasure/estimators/entropy/nsb.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 773c829..9d59156 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -2,7 +2,7 @@
 
 from functools import lru_cache
 
-from numpy import exp, integer, issubdtype, log, nan
+from numpy import exp, integer, isfinite, issubdtype, log, nan
 from scipy.integrate import quad
 from scipy.optimize import minimize_scalar, root_scalar
 from scipy.special import loggamma, digamma, polygamma
@@ -114,8 +114,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
             # Numerator: integral of rho * bayes_entropy
             numerator, _ = quad(
                 lambda beta: (
-                    exp(-self._neg_log_rho(beta, K, N, counts) + l0)
-                    * self._dxi(beta, K)
+                    self._weight(beta, K, N, counts, l0)
                     * self._bayes(beta, K, counts)
                 ),
                 0,
@@ -127,10 +126,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
 
             # Denominator: integral of rho
             denominator, _ = quad(
-                lambda beta: (
-                    exp(-self._neg_log_rho(beta, K, N, counts) + l0)
-                    * self._dxi(beta, K)
-                ),
+                lambda beta: self._weight(beta, K, N, counts, l0),
                 0,
                 log_K,
                 limit=100,
@@ -194,6 +190,21 @@ class NsbEntropyEstimator(DiscreteHEstimator):
         extremum_beta = self._find_extremum_log_rho(K, N) / K
         return self._neg_log_rho(extremum_beta, K, N, counts)
 
+    def _weight(self, beta, K, N, counts, l0):
+        """Calculate the posterior weight of beta, relative to the one of l0.
+
+        Raises
+        ------
+        OverflowError
+            If the weight exceeds the floating point range.
+            The integration routine must never see non-finite values,
+            as it can crash the interpreter on them.
+        """
+        weight = exp(-self._neg_log_rho(beta, K, N, counts) + l0) * self._dxi(beta, K)
+        if not isfinite(weight):
+            raise OverflowError("posterior weight exceeds the floating point range")
+        return weight
+
     def _dxi(self, beta, K):
         """Calculate the derivative dxi/dbeta."""
         # The derivative of ξ = ψ(kappa + 1) - ψ(β + 1)
-- 
2.43.0


From 44ade2c09f8e6e3742bdfdb31e4e236d89c67530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 29/33] fix: transfer entropy of discrete series with different
 data types

Joining the histories converts to a common type, which merged e.g. neighbouring large
integers of one series when the other held floats.
---
 infomeasure/estimators/base.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index c58844e..74988e1 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -14,6 +14,7 @@ from numpy import (
     log2,
     log10,
     ndarray,
+    unique,
 )
 from numpy import mean as np_mean
 from numpy import sum as np_sum
@@ -923,6 +924,13 @@ class TransferEntropyEstimator(
             source += self.rng.normal(0, noise_level, source.shape)
             dest += self.rng.normal(0, noise_level, dest.shape)
 
+        if issubclass(estimator, DiscreteHEstimator) and source.dtype != dest.dtype:
+            # Joining the histories converts to a common type, which can merge
+            # different symbols
+            source, dest = (
+                unique(var, axis=0, return_inverse=True)[1] for var in (source, dest)
+            )
+
         (
             joint_space_data,
             dest_past_embedded,
@@ -1078,6 +1086,17 @@ class ConditionalTransferEntropyEstimator(
             dest += self.rng.normal(0, noise_level, dest.shape)
             cond += self.rng.normal(0, noise_level, cond.shape)
 
+        if (
+            issubclass(estimator, DiscreteHEstimator)
+            and len({source.dtype, dest.dtype, cond.dtype}) > 1
+        ):
+            # Joining the histories converts to a common type, which can merge
+            # different symbols
+            source, dest, cond = (
+                unique(var, axis=0, return_inverse=True)[1]
+                for var in (source, dest, cond)
+            )
+
         (
             joint_space_data,
             dest_past_embedded,
-- 
2.43.0


From 18c0abace79b46ea4e9b67bd51e6451633ee8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 30/33] fix: restore the data and resampling flags when a
 statistical test fails midway

---
 infomeasure/estimators/mixins.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index 33a0d9d..9051070 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -294,13 +294,14 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [
-            self._calculate_mi_with_data_selection(method_resample_src)
-            for _ in range(n_tests)
-        ]
-
-        # Restore the original data
-        self.data = self.original_data
+        try:
+            permuted_values = [
+                self._calculate_mi_with_data_selection(method_resample_src)
+                for _ in range(n_tests)
+            ]
+        finally:
+            # Restore the original data, also if a resampled calculation failed
+            self.data = self.original_data
         return asarray(permuted_values)
 
     def _test_te(self, n_tests: int, method: str) -> ndarray:
@@ -335,12 +336,14 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [self._calculate() for _ in range(n_tests)]
+        try:
+            permuted_values = [self._calculate() for _ in range(n_tests)]
+        finally:
+            # Deactivate the permutation/resample flags, also if a resampled
+            # calculation failed
+            self.permute_src, self.resample_src = False, False
         if isinstance(permuted_values[0], ndarray):
             permuted_values = [np_mean(x) for x in permuted_values]
-
-        # Deactivate the permutation/resample flags
-        self.permute_src, self.resample_src = False, False
         return asarray(permuted_values)
 
 
-- 
2.43.0


From a6cb3f1e5e5396029ad6b28096106c96f1de9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 31/33] fix: Gaussian kernel densities of rank-deficient data
 (symmetric eigendecomposition)

The general eigensolver returns complex vectors for some singular covariance
matrices, on which the density estimation then fails.
---
 infomeasure/estimators/utils/kde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index 5b33643..a77e302 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -16,7 +16,7 @@ from numpy import (
     sqrt,
 )
 from numpy import sum as np_sum
-from numpy.linalg import eig, eigvalsh
+from numpy.linalg import eigh, eigvalsh
 from scipy.spatial import KDTree
 from scipy.stats import gaussian_kde
 
@@ -135,7 +135,7 @@ def gaussian_kernel_densities(
         # Calculate covariance matrix
         covariance_matrix = cov(data)
         # Get eigenvalues and eigenvectors
-        values, vectors = eig(covariance_matrix)
+        values, vectors = eigh(covariance_matrix)
         sorted_indices = argsort(values)[::-1]
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
-- 
2.43.0


From b4fbcbcca3bf243ee07cf32d6c3df39474ab0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:29 +0000
Subject: [PATCH 32/33] fix: Grassberger entropy from symbol counts alone

---
 infomeasure/estimators/entropy/grassberger.py | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/infomeasure/estimators/entropy/grassberger.py b/infomeasure/estimators/entropy/grassberger.py
index 6a196f9..f26c67e 100644
--- a/infomeasure/estimators/entropy/grassberger.py
+++ b/infomeasure/estimators/entropy/grassberger.py
@@ -1,6 +1,7 @@
 """Module for the discrete Grassberger entropy estimator."""
 
-from numpy import asarray, log
+from numpy import asarray, log, where
+from numpy import sum as np_sum
 from scipy.special import digamma
 
 from infomeasure.estimators.base import DiscreteHEstimator
@@ -35,18 +36,33 @@ class GrassbergerEntropyEstimator(DiscreteHEstimator):
             The calculated entropy.
         """
 
-        # Create a mapping from unique values to their counts
-        count_dict = dict(zip(self.data[0].uniq, self.data[0].counts))
+        # Every symbol contributes with its relative frequency
+        return np_sum(self.data[0].probabilities * self._symbol_contributions())
 
-        # Vectorized calculation of local values
-        n_i = asarray([count_dict[val] for val in self.data[0].data])
-        local_values = log(self.data[0].N) - digamma(n_i) - ((-1) ** n_i) / (n_i + 1)
+    def _extract_local_values(self):
+        """Separately, calculate the local values.
+
+        Returns
+        -------
+        ndarray[float]
+            The calculated local values of entropy.
+        """
+        # Create a mapping from unique values to their contributions
+        local_dict = dict(zip(self.data[0].uniq, self._symbol_contributions()))
+        return asarray([local_dict[val] for val in self.data[0].data])
+
+    def _symbol_contributions(self):
+        """Contribution of one observation of each unique symbol."""
+        n_i = self.data[0].counts.astype(float)
+        contributions = (
+            log(self.data[0].N) - digamma(n_i) - where(n_i % 2, -1, 1) / (n_i + 1)
+        )
 
         # Convert to the requested base if needed
         if self.base != "e":
-            local_values /= log(self.base)
+            contributions /= log(self.base)
 
-        return local_values
+        return contributions
 
     def _cross_entropy(self) -> float:
         """Calculate cross-entropy between two distributions.
-- 
2.43.0


From 4aa11d3daddc95f68d81ed83626935168354f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:26 +0000
Subject: [PATCH 33/33] fix: Renyi and Tsallis estimators with more than 171
 neighbours

---
 infomeasure/estimators/utils/exponential_family.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index 7e77e3e..bb343dc 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -7,7 +7,7 @@ functions for these distributions.
 
 from numpy import pi, sum as np_sum, exp as np_exp
 from scipy.spatial import KDTree
-from scipy.special import gamma, digamma
+from scipy.special import gamma, digamma, poch
 
 
 def calculate_common_entropy_components(data, k, at=None):
@@ -94,7 +94,9 @@ def exponential_family_iq(k, q, V_m, rho_k, N, m):
     """
     if q == k + 1:  # In this case, C_k is complex infinite and (C_k)^-q = 0 for real q.
         return 0.0
-    C_k = (gamma(k) / gamma(k + 1 - q)) ** (1 / (1 - q))
+    # for many neighbours, the gamma function exceeds the floating point range
+    ratio = gamma(k) / gamma(k + 1 - q) if k <= 170 else poch(k + 1 - q, q - 1)
+    C_k = ratio ** (1 / (1 - q))
     return (
         (N * C_k * V_m) ** (1 - q)
         * np_sum((rho_k[rho_k > 0] ** m) ** (1 - q))
-- 
2.43.0

