From acf105e2e2c5b06a0a0d134c3abdc20923c65704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 01/10] fix: build a join tree for networks with several
 connected components

Only clique pairs with a common variable got a sepset, so a disconnected
network ended in an IndexError or in an endless loop.
---
 causalnex/ebaybbn/bbn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index ee53e5c..85b99f4 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -988,8 +988,9 @@ def build_join_tree(dag, clique_priority_func=priority_func):
     # Initialize the SepSets
     S = set()  # track the sepsets
     for X, Y in combinations(cliques, 2):
-        if X.nodes.intersection(Y.nodes):
-            S.add(SepSet(X, Y))
+        # Cliques with no common variable get an empty sepset. It has the
+        # least mass, so it only joins parts of a disconnected network.
+        S.add(SepSet(X, Y))
     sepsets_inserted = 0
     while sepsets_inserted < (len(cliques) - 1):
         # Adding in name to make this sort deterministic
-- 
2.43.0


From aa3a4179d2152a4a436844ab2c857c73b2cf1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 02/10] fix: never draw a state of probability zero

random() may return 0.0, which selected the first state even when its
probability is zero; a cumulative sum rounded below one could run past the
last state.
---
 causalnex/ebaybbn/bbn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 85b99f4..6b395db 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -178,9 +178,10 @@ class BBN:
                 cumulative_density = var_density[:1]
                 for key, mass in var_density[1:]:
                     cumulative_density.append((key, cumulative_density[-1][1] + mass))
-                r = random()
+                # scaled, so that rounding of the total cannot exhaust the states
+                r = random() * cumulative_density[-1][1]
                 i = 0
-                while r > cumulative_density[i][1]:
+                while r >= cumulative_density[i][1]:
                     i += 1
                 sample[next_node.variable_name] = cumulative_density[i][0][1]
             samples.append(sample)
-- 
2.43.0


From 6120bfb70bff5fc4989b3b1f830a56d5fa782d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 03/10] fix: reject an invalid origin given in the data of an
 edge

---
 causalnex/structure/structuremodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causalnex/structure/structuremodel.py b/causalnex/structure/structuremodel.py
index 4d84fe9..13407db 100644
--- a/causalnex/structure/structuremodel.py
+++ b/causalnex/structure/structuremodel.py
@@ -186,6 +186,11 @@ class StructureModel(nx.DiGraph):
 
         _validate_origin(origin)
 
+        ebunch_to_add = list(ebunch_to_add)
+        for edge in ebunch_to_add:
+            if len(edge) == 3:  # the edge data overrides the common attributes
+                _validate_origin(dict(edge[2]).get("origin", origin))
+
         attr.update({"origin": origin})
         super().add_edges_from(ebunch_to_add, **attr)
 
-- 
2.43.0


From 2b6e04e8e514ad8b62b2c587457da56dea810b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:47 +0000
Subject: [PATCH 04/10] fix: reject data types that only resemble a permissible
 type

---
 .../structure/categorical_variable_mapper.py  | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/causalnex/structure/categorical_variable_mapper.py b/causalnex/structure/categorical_variable_mapper.py
index 62cfe74..f0a30b6 100644
--- a/causalnex/structure/categorical_variable_mapper.py
+++ b/causalnex/structure/categorical_variable_mapper.py
@@ -252,6 +252,18 @@ class VariableFeatureMapper:
         return len(self.feature_list)
 
 
+def _is_known_type(data_type: str) -> bool:
+    """
+    Checks that a data type is one of the permissible types. Only a categorical
+    type may be followed by a cardinality, which is not checked here.
+    """
+    expandable_type = VariableFeatureMapper.EXPANDABLE_TYPE
+    return (
+        data_type in VariableFeatureMapper.PERMISSIBLE_TYPES
+        or data_type.startswith(expandable_type + ":")
+    )
+
+
 def validate_schema(
     nodes: Union[List[Hashable], Set[Hashable], NodeView],
     default_type: str = "continuous",
@@ -276,7 +288,7 @@ def validate_schema(
         ValueError: for unknown data type
         ValueError: for missing cardinality for categorical variables
     """
-    if not any(x in default_type for x in VariableFeatureMapper.PERMISSIBLE_TYPES):
+    if not _is_known_type(default_type):
         raise ValueError(
             "Unknown default data type. Supported data types are {}".format(
                 ", ".join(VariableFeatureMapper.PERMISSIBLE_TYPES)
@@ -288,17 +300,10 @@ def validate_schema(
     schema = {k: schema.get(k, default_type) for k in nodes}
 
     # verify if the data type is supported
-    if not all(
-        any(t in x for t in VariableFeatureMapper.PERMISSIBLE_TYPES)
-        for x in schema.values()
-    ):
+    if not all(_is_known_type(x) for x in schema.values()):
         raise ValueError(
             "Unknown data type for variable(s) {}, ".format(
-                [
-                    k
-                    for k, v in schema.items()
-                    if v not in VariableFeatureMapper.PERMISSIBLE_TYPES
-                ]
+                [k for k, v in schema.items() if not _is_known_type(v)]
             )
             + "Supported data types are {}".format(
                 ", ".join(VariableFeatureMapper.PERMISSIBLE_TYPES)
@@ -308,7 +313,7 @@ def validate_schema(
     missing_cardinality = {
         k
         for k, v in schema.items()
-        if "categorical" in v and re.match(r"^categorical:[1-9]+[0-9]*", v) is None
+        if "categorical" in v and re.fullmatch(r"categorical:[1-9][0-9]*", v) is None
     }
 
     if missing_cardinality:
-- 
2.43.0


From ccacf080b42de0bce4e4fecdbde169bfe6d6d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:21 +0000
Subject: [PATCH 05/10] fix: intervene with a single state of any type

---
 causalnex/inference/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a1dd46e..263d5e2 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -207,7 +207,7 @@ class InferenceEngine:
                 "Do calculus cannot be applied because it would result in an isolate"
             )
 
-        if isinstance(state, int):
+        if not isinstance(state, dict):
             state = {s: float(s == state) for s in self._cpds[node]}
 
         self._do(node, state)
-- 
2.43.0


From b838b70b320e65b50fb84fcd318aa5efa40ea2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:53 +0000
Subject: [PATCH 06/10] fix: accept intervened distributions that sum to 1 up
 to rounding

---
 causalnex/inference/inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 263d5e2..376b261 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -33,6 +33,7 @@ This module contains the implementation of ``InferenceEngine``.
 
 import copy
 import inspect
+import math
 import re
 import types
 from typing import Callable, Dict, Hashable, Tuple, Union
@@ -160,7 +161,7 @@ class InferenceEngine:
             ValueError: if states do not match original states of the node, or probabilities do not sum to 1.
         """
 
-        if sum(state.values()) != 1.0:
+        if not math.isclose(sum(state.values()), 1.0):
             raise ValueError("The cpd for the provided observation must sum to 1")
 
         if max(state.values()) > 1.0 or min(state.values()) < 0:
-- 
2.43.0


From 18d39322cc9ea19a3781df42917bc99a431eb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:53 +0000
Subject: [PATCH 07/10] fix: align the predicted and true states in roc_auc

---
 causalnex/evaluation/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 172a7ad..108aed5 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -99,9 +99,10 @@ def roc_auc(
     ground_truth = _build_ground_truth(bn, data, node)
     predictions = bn.predict_probability(data, node)
 
-    # update column names to match those of ground_truth
-    predictions.rename(columns=lambda x: x.lstrip(node + "_"), inplace=True)
-    predictions = predictions[sorted(predictions.columns)]
+    # order columns to match those of ground_truth
+    predictions = predictions[
+        ["{0}_{1}".format(node, state) for state in sorted(bn.node_states[node])]
+    ]
 
     fpr, tpr, _ = metrics.roc_curve(
         ground_truth.values.ravel(), predictions.values.ravel()
-- 
2.43.0


From 946da3e86b8bc4e3cf7644378670ba1d70c36b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 08/10] fix: predict from the data when a predicted column has
 the name of a parent

---
 causalnex/network/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 154e363..7ecc7fb 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -534,7 +534,7 @@ class BayesianNetwork:
         for state in self.node_states[node]:
             transformed_data[
                 "{n}_{s}".format(n=node, s=state)
-            ] = transformed_data.apply(
+            ] = data.apply(
                 lambda row, st=state: lookup_probability(row, st), axis=1
             )
 
-- 
2.43.0


From b1879471bb5331e7a65531881dc3ea5ffb04bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 09/10] fix: predictions from incomplete data name states, not
 pgmpy's state indices

---
 causalnex/network/network.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 7ecc7fb..b95aac6 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -32,7 +32,6 @@ This module contains the implementation of ``BayesianNetwork``.
 describing causal relationships between variables and their distribution in a factorised way.
 """
 
-import re
 from copy import deepcopy
 from typing import Dict, Hashable, List, Set, Tuple
 
@@ -483,9 +482,13 @@ class BayesianNetwork:
         # pgmpy will predict all missing data, so drop column we want to predict
         transformed_data = transformed_data.drop(columns=[node])
 
-        predictions = self._model.predict(transformed_data)[[node]]
+        predictions = self._model.predict(transformed_data)
 
-        return predictions.rename(columns={node: node + "_prediction"})
+        # pgmpy predicts the index of each state, so convert from idx -> state
+        states = {idx: state for state, idx in self._node_states[node].items()}
+        predictions[node] = predictions[node].map(states)
+
+        return predictions[[node]].rename(columns={node: node + "_prediction"})
 
     def predict_probability(self, data: pd.DataFrame, node: str) -> pd.DataFrame:
         """
@@ -569,14 +572,12 @@ class BayesianNetwork:
             transformed_data
         )  # type: pd.DataFrame
 
-        # keep only probabilities for the node we are interested in
-        cols = []
-        pattern = re.compile("^{node}_[0-9]+$".format(node=node))
-        # disabled open pylint issue (https://github.com/PyCQA/pylint/issues/2962)
-        for col in probability.columns:
-            if pattern.match(col):
-                cols.append(col)
-        probability = probability[cols]
-        probability.columns = cols
+        # keep only probabilities for the node we are interested in;
+        # pgmpy names them by the index of each state, so convert from idx -> state
+        states = self._node_states[node]
+        probability = probability[
+            ["{n}_{i}".format(n=node, i=idx) for idx in states.values()]
+        ]
+        probability.columns = ["{n}_{s}".format(n=node, s=s) for s in states.keys()]
 
         return probability
-- 
2.43.0


From 108c7816a5661715b4b20c1ea68d4d0c0083ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 10/10] fix: predict from incomplete data that do not hold the
 predicted node

---
 causalnex/network/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index b95aac6..75c4776 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -480,7 +480,7 @@ class BayesianNetwork:
         # transformed_data.is_copy()
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         predictions = self._model.predict(transformed_data)
 
@@ -566,7 +566,7 @@ class BayesianNetwork:
         self._state_to_index(transformed_data)
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         probability = self._model.predict_probability(
             transformed_data
-- 
2.43.0

