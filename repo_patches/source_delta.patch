From 2c40c1719ee781eb12e1f259fa69928ce793cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 01/30] fix: build a join tree for networks that are not
 connected

---
 causalnex/ebaybbn/bbn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index ee53e5c..40ca2ad 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -995,7 +995,6 @@ def build_join_tree(dag, clique_priority_func=priority_func):
         # Adding in name to make this sort deterministic
         deco = [(s, -1 * s.mass, s.cost, s.__repr__()) for s in S]
         deco.sort(key=lambda x: x[1:])
-        candidate_sepset = deco[0][0]
         for candidate_sepset, _, _, _ in deco:
             if candidate_sepset.insertable(forest):
                 # Insert into forest and remove the sepset
@@ -1003,6 +1002,12 @@ def build_join_tree(dag, clique_priority_func=priority_func):
                 S.remove(candidate_sepset)
                 sepsets_inserted += 1
                 break
+        else:
+            # The remaining trees share no variables, i.e. the dag is
+            # not connected. Join two of them with an empty sepset.
+            tree_x, tree_y = sorted(forest, key=lambda t: t.nodes[0].name)[:2]
+            SepSet(tree_x.nodes[0].clique, tree_y.nodes[0].clique).insert(forest)
+            sepsets_inserted += 1
 
     assert len(forest) == 1
     jt = list(forest)[0]
-- 
2.43.0


From 7d5750a3233c4e86b0afd5f87e00fa95c0b1ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 02/30] fix: query networks of more than about 200 variables
 without exhausting the stack

---
 causalnex/ebaybbn/bbn.py   | 12 +++++++++---
 causalnex/ebaybbn/graph.py | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 40ca2ad..f5cdf3b 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -46,7 +46,13 @@ from itertools import combinations, product
 from random import choice, random
 
 from .exceptions import VariableNotInGraphError, VariableValueNotInDomainError
-from .graph import Node, UndirectedGraph, UndirectedNode, connect
+from .graph import (
+    Node,
+    UndirectedGraph,
+    UndirectedNode,
+    connect,
+    copy_undirected_graph,
+)
 from .utils import get_args, get_original_factors
 
 # from .bayesian import GREEN, NORMAL
@@ -844,7 +850,7 @@ def make_undirected_copy(dag):
 def make_moralized_copy(gu, dag):
     """gu is an undirected graph being
     a copy of dag."""
-    gm = copy.deepcopy(gu)
+    gm = copy_undirected_graph(gu)
     gm_nodes = dict([(node.name, node) for node in gm.nodes])
     for node in dag.nodes:
         for parent_1, parent_2 in combinations(node.parents, 2):
@@ -902,7 +908,7 @@ def triangulate(gm, priority_func=priority_func):
     graph as well as the elimination ordering."""
 
     # First we will make a copy of gm...
-    gm_ = copy.deepcopy(gm)
+    gm_ = copy_undirected_graph(gm)
 
     # Now we will construct a priority q using
     # the standard library heapq module.
diff --git a/causalnex/ebaybbn/graph.py b/causalnex/ebaybbn/graph.py
index df7ac01..9967c3f 100644
--- a/causalnex/ebaybbn/graph.py
+++ b/causalnex/ebaybbn/graph.py
@@ -37,6 +37,8 @@
 #
 """Generic Graph Classes"""
 
+import copy
+
 
 class Node(object):
     def __init__(self, name, parents=[], children=[]):
@@ -63,6 +65,19 @@ class UndirectedGraph(object):
         self.name = name
 
 
+def copy_undirected_graph(graph):
+    """
+    Copy a graph, its nodes and the links between
+    them. Unlike copy.deepcopy this does not recurse
+    from neighbour to neighbour, so the size of the
+    graph is not bounded by the recursion limit.
+    """
+    copies = {node: copy.copy(node) for node in graph.nodes}
+    for node in copies.values():
+        node.neighbours = [copies[neighbour] for neighbour in node.neighbours]
+    return UndirectedGraph(list(copies.values()), graph.name)
+
+
 def connect(parent, child):
     """
     Make an edge between a parent
-- 
2.43.0


From c0664476fce31a9ac4fa83e0e5b7aa20787414aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 03/30] fix: never sample values without mass, and validate the
 evidence of draw_samples

---
 causalnex/ebaybbn/bbn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index f5cdf3b..2376cbf 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -163,6 +163,7 @@ class BBN:
     def draw_samples(self, query={}, n=1):
         """query is a dict of currently evidenced
         variables and is none by default."""
+        self.validate_keyvals(**query)
         samples = []
         result_cache = dict()
         # We need to add evidence variables to the sample...
@@ -184,9 +185,12 @@ class BBN:
                 cumulative_density = var_density[:1]
                 for key, mass in var_density[1:]:
                     cumulative_density.append((key, cumulative_density[-1][1] + mass))
-                r = random()
+                # Scaled, so that rounding in the total mass cannot
+                # leave r beyond the last entry; r < total always,
+                # so values without any mass are never selected.
+                r = random() * cumulative_density[-1][1]
                 i = 0
-                while r > cumulative_density[i][1]:
+                while r >= cumulative_density[i][1]:
                     i += 1
                 sample[next_node.variable_name] = cumulative_density[i][0][1]
             samples.append(sample)
-- 
2.43.0


From 309e8ff600549230c9ee139769aab78132e6cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 04/30] fix: accept any hashable state and rounding in the sum
 of an intervention

---
 causalnex/inference/inference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a1dd46e..376b261 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -33,6 +33,7 @@ This module contains the implementation of ``InferenceEngine``.
 
 import copy
 import inspect
+import math
 import re
 import types
 from typing import Callable, Dict, Hashable, Tuple, Union
@@ -160,7 +161,7 @@ class InferenceEngine:
             ValueError: if states do not match original states of the node, or probabilities do not sum to 1.
         """
 
-        if sum(state.values()) != 1.0:
+        if not math.isclose(sum(state.values()), 1.0):
             raise ValueError("The cpd for the provided observation must sum to 1")
 
         if max(state.values()) > 1.0 or min(state.values()) < 0:
@@ -207,7 +208,7 @@ class InferenceEngine:
                 "Do calculus cannot be applied because it would result in an isolate"
             )
 
-        if isinstance(state, int):
+        if not isinstance(state, dict):
             state = {s: float(s == state) for s in self._cpds[node]}
 
         self._do(node, state)
-- 
2.43.0


From 306006cdebcb478b0782fd72bc34883c8ea71c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 05/30] fix: reject an unknown origin given in the data of an
 edge

---
 causalnex/structure/structuremodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causalnex/structure/structuremodel.py b/causalnex/structure/structuremodel.py
index 4d84fe9..9b41166 100644
--- a/causalnex/structure/structuremodel.py
+++ b/causalnex/structure/structuremodel.py
@@ -186,6 +186,12 @@ class StructureModel(nx.DiGraph):
 
         _validate_origin(origin)
 
+        # edge data takes precedence over attr, so it can contain an origin too
+        ebunch_to_add = list(ebunch_to_add)
+        for edge in ebunch_to_add:
+            if len(edge) == 3:
+                _validate_origin(dict(edge[2]).get("origin", origin))
+
         attr.update({"origin": origin})
         super().add_edges_from(ebunch_to_add, **attr)
 
-- 
2.43.0


From 473a0fc5cedd63addced98966b80c82cbeaa4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 06/30] fix: refuse data types that only contain the name of a
 known one in validate_schema

---
 .../structure/categorical_variable_mapper.py  | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/causalnex/structure/categorical_variable_mapper.py b/causalnex/structure/categorical_variable_mapper.py
index 62cfe74..dfbc28e 100644
--- a/causalnex/structure/categorical_variable_mapper.py
+++ b/causalnex/structure/categorical_variable_mapper.py
@@ -276,7 +276,13 @@ def validate_schema(
         ValueError: for unknown data type
         ValueError: for missing cardinality for categorical variables
     """
-    if not any(x in default_type for x in VariableFeatureMapper.PERMISSIBLE_TYPES):
+    def is_known_type(data_type):
+        return (
+            data_type in VariableFeatureMapper.PERMISSIBLE_TYPES
+            or data_type.split(":")[0] == VariableFeatureMapper.EXPANDABLE_TYPE
+        )
+
+    if not is_known_type(default_type):
         raise ValueError(
             "Unknown default data type. Supported data types are {}".format(
                 ", ".join(VariableFeatureMapper.PERMISSIBLE_TYPES)
@@ -288,17 +294,10 @@ def validate_schema(
     schema = {k: schema.get(k, default_type) for k in nodes}
 
     # verify if the data type is supported
-    if not all(
-        any(t in x for t in VariableFeatureMapper.PERMISSIBLE_TYPES)
-        for x in schema.values()
-    ):
+    if not all(is_known_type(x) for x in schema.values()):
         raise ValueError(
             "Unknown data type for variable(s) {}, ".format(
-                [
-                    k
-                    for k, v in schema.items()
-                    if v not in VariableFeatureMapper.PERMISSIBLE_TYPES
-                ]
+                [k for k, v in schema.items() if not is_known_type(v)]
             )
             + "Supported data types are {}".format(
                 ", ".join(VariableFeatureMapper.PERMISSIBLE_TYPES)
@@ -308,7 +307,7 @@ def validate_schema(
     missing_cardinality = {
         k
         for k, v in schema.items()
-        if "categorical" in v and re.match(r"^categorical:[1-9]+[0-9]*", v) is None
+        if "categorical" in v and re.fullmatch(r"categorical:[1-9][0-9]*", v) is None
     }
 
     if missing_cardinality:
-- 
2.43.0


From 6cee0af63c957b4b5e9a30050f58ea1037593401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:41 +0000
Subject: [PATCH 07/30] fix: predict from incomplete data in terms of the
 states, with or without the predicted column

---
 causalnex/network/network.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 154e363..e83f287 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -32,7 +32,6 @@ This module contains the implementation of ``BayesianNetwork``.
 describing causal relationships between variables and their distribution in a factorised way.
 """
 
-import re
 from copy import deepcopy
 from typing import Dict, Hashable, List, Set, Tuple
 
@@ -481,10 +480,14 @@ class BayesianNetwork:
         # transformed_data.is_copy()
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         predictions = self._model.predict(transformed_data)[[node]]
 
+        # pgmpy works with the indices of the states
+        states = {idx: state for state, idx in self._node_states[node].items()}
+        predictions[node] = predictions[node].map(states)
+
         return predictions.rename(columns={node: node + "_prediction"})
 
     def predict_probability(self, data: pd.DataFrame, node: str) -> pd.DataFrame:
@@ -563,20 +566,20 @@ class BayesianNetwork:
         self._state_to_index(transformed_data)
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         probability = self._model.predict_probability(
             transformed_data
         )  # type: pd.DataFrame
 
-        # keep only probabilities for the node we are interested in
-        cols = []
-        pattern = re.compile("^{node}_[0-9]+$".format(node=node))
-        # disabled open pylint issue (https://github.com/PyCQA/pylint/issues/2962)
-        for col in probability.columns:
-            if pattern.match(col):
-                cols.append(col)
-        probability = probability[cols]
-        probability.columns = cols
+        # keep only probabilities for the node we are interested in;
+        # pgmpy works with the indices of the states
+        states = self._node_states[node]
+        probability = probability[
+            ["{n}_{idx}".format(n=node, idx=idx) for idx in states.values()]
+        ]
+        probability.columns = [
+            "{n}_{s}".format(n=node, s=state) for state in states.keys()
+        ]
 
         return probability
-- 
2.43.0


From 27a7c390d6a7ee58133a5e0bd2e7c3f0f826f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 08/30] fix: label the lagged columns of generated time series
 with the lag they hold

---
 causalnex/structure/data_generators/wrappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 94ba092..13884b9 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -548,7 +548,11 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
             )
         )
     intra_nodes = sorted(el for el in g.nodes if "_lag0" in el)
-    inter_nodes = sorted(el for el in g.nodes if "_lag0" not in el)
+    # lag by lag, as in the rows of Xlags
+    inter_nodes = sorted(
+        (el for el in g.nodes if "_lag0" not in el),
+        key=lambda el: (int(el.split("_lag")[-1]), el),
+    )
     w_mat = nx.to_numpy_array(g, nodelist=intra_nodes)
     a_mat = nx.to_numpy_array(g, nodelist=intra_nodes + inter_nodes)[
         len(intra_nodes) :, : len(intra_nodes)
-- 
2.43.0


From 136e0fab469f749e94b752c5ea6526a10e17514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 09/30] fix: nonlinear generator yields NaN or huge values
 below a constant parent

Scaling to unit variance divided by a standard deviation that is zero (or
rounding noise) when the input of the Gaussian process is constant, for
example a categorical parent with one category or an all-zero count.
---
 causalnex/structure/data_generators/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index 384dc2e..d2f499a 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -841,5 +841,8 @@ def _gp_index(
 
 
 def _scale_y(y):
-    """Normalize variance to 1."""
-    return y / y.std()
+    """Normalize variance to 1, unless y is constant (up to rounding)."""
+    std = y.std()
+    if std <= 1e-6 * np.abs(y).max():
+        return y
+    return y / std
-- 
2.43.0


From 2f4d6423d71de66dbfa61fb6071214a0a2d9fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 10/30] fix: nonlinear generator fails for a single sample

The squeeze turned the one-element sample into a scalar without a shape.
---
 causalnex/structure/data_generators/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index d2f499a..407c57d 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -759,7 +759,7 @@ def nonlinear_sem_generator(
 def _unconditional_sample(x, kernel):
     cov_mat = kernel(x)
     y = np.random.multivariate_normal(mean=np.zeros(shape=x.shape[0]), cov=cov_mat)
-    return y.squeeze(), cov_mat
+    return y, cov_mat
 
 
 def _conditional_sample(
-- 
2.43.0


From 5f2bc12c87ddffd4edf08d6cc2e4beedb8ee656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 11/30] fix: predicted probabilities overwrite a parent column
 of the same name while they are looked up

---
 causalnex/network/network.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index e83f287..9dd00ce 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -537,9 +537,7 @@ class BayesianNetwork:
         for state in self.node_states[node]:
             transformed_data[
                 "{n}_{s}".format(n=node, s=state)
-            ] = transformed_data.apply(
-                lambda row, st=state: lookup_probability(row, st), axis=1
-            )
+            ] = data.apply(lambda row, st=state: lookup_probability(row, st), axis=1)
 
         return transformed_data[
             ["{n}_{s}".format(n=node, s=state) for state in self.node_states[node]]
-- 
2.43.0


From 012ad0d9c1d0854f1d7661683e445cc91d3c9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 12/30] fix: roc_auc pairs predictions with the wrong states
 (names stripped as character sets, states sorted as strings, boolean states)

---
 causalnex/evaluation/evaluation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 172a7ad..044df1c 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -46,8 +46,11 @@ def _build_ground_truth(
         if dummy not in ground_truth.columns:
             ground_truth[dummy] = [0 for _ in range(len(ground_truth))]
 
-    # update ground truth column names to be correct, since we may have added missing columns
-    return ground_truth[sorted(ground_truth.columns)]
+    # name the columns like those of predict_probability
+    names = {state: "{}_{}".format(node, state) for state in bn.node_states[node]}
+    ground_truth.columns = [names.get(state, state) for state in ground_truth.columns]
+
+    return ground_truth
 
 
 def roc_auc(
@@ -97,11 +100,9 @@ def roc_auc(
     """
 
     ground_truth = _build_ground_truth(bn, data, node)
-    predictions = bn.predict_probability(data, node)
 
-    # update column names to match those of ground_truth
-    predictions.rename(columns=lambda x: x.lstrip(node + "_"), inplace=True)
-    predictions = predictions[sorted(predictions.columns)]
+    # the states have to be in the same order as those of ground_truth
+    predictions = bn.predict_probability(data, node)[ground_truth.columns]
 
     fpr, tpr, _ = metrics.roc_curve(
         ground_truth.values.ravel(), predictions.values.ravel()
-- 
2.43.0


From 931f502f2407fff97d3e0ef92ac1c0385bc3eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 13/30] fix: color gradients can miss their last color by
 rounding

---
 causalnex/plots/plots.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 9cf72ca..de3a06e 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -171,12 +171,16 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
         int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
     ]
 
-    delta_colors = [(t - f) / steps for f, t in zip(from_colors, to_colors)]
+    delta_colors = [t - f for f, t in zip(from_colors, to_colors)]
 
+    # multiply before dividing: the last step has to be exactly to_color
     gradient_colors = [
         "#"
         + "".join(
-            [format(int(f + d * i), "02x") for f, d in zip(from_colors, delta_colors)]
+            [
+                format(int(f + d * i / steps), "02x")
+                for f, d in zip(from_colors, delta_colors)
+            ]
         )
         for i in range(steps + 1)
     ]
-- 
2.43.0


From 38cc9bde0a82d30f2e80c9d8b9ccbbd9498ec422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 14/30] fix: color gradients of colors without alpha were
 completely transparent

---
 causalnex/plots/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index de3a06e..d3f1183 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -165,10 +165,10 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
     )
 
     from_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(from_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(from_color).groups()[1:]
     ]
     to_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(to_color).groups()[1:]
     ]
 
     delta_colors = [t - f for f, t in zip(from_colors, to_colors)]
-- 
2.43.0


From 4d5e2d116068ca65f82467a568122d51c4501dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 15/30] fix: plot_structure fails for nodes that are tuples

---
 causalnex/plots/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index d3f1183..f67af7b 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -201,7 +201,7 @@ def _add_attributes(
 
     # shift labels to be above nodes
     for node in _sm.nodes:
-        _sm.nodes[node]["label"] = "%s\n\n " % node
+        _sm.nodes[node]["label"] = "{}\n\n ".format(node)
 
     # apply node attributes (start with default, then apply any custom)
     _all_node_attr = {**NODE_STYLE.NORMAL}
-- 
2.43.0


From 8b4ce7f03da72dd2e21d3db365ec4de4aea20ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 16/30] fix: predictions of DAGRegressor and DAGClassifier with
 ordinal features

---
 causalnex/structure/pytorch/core.py          | 10 ++++++++--
 causalnex/structure/pytorch/sklearn/_base.py |  7 ++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/causalnex/structure/pytorch/core.py b/causalnex/structure/pytorch/core.py
index ec616d7..9d3efeb 100644
--- a/causalnex/structure/pytorch/core.py
+++ b/causalnex/structure/pytorch/core.py
@@ -184,7 +184,9 @@ class NotearsMLP(nn.Module, BaseEstimator):
         x = x.squeeze(dim=2)  # [n, d]
         return x
 
-    def reconstruct_data(self, X: np.ndarray) -> np.ndarray:
+    def reconstruct_data(
+        self, X: np.ndarray, dist_types: List[DistTypeBase] = None
+    ) -> np.ndarray:
         """
         Performs X_hat reconstruction,
         then converts latent space to original data space via link function.
@@ -192,6 +194,10 @@ class NotearsMLP(nn.Module, BaseEstimator):
         Args:
             X: input data used to reconstruct
 
+            dist_types: the dist types to convert to original data space.
+            Converts all of them by default. NOTE: the inverse link function of
+            some dist types (ordinal) does not return the entire dataset.
+
         Returns:
             reconstructed data
         """
@@ -208,7 +214,7 @@ class NotearsMLP(nn.Module, BaseEstimator):
             X_hat = self(X)
 
             # recover each one of the latent space projections
-            for dist_type in self.dist_types:
+            for dist_type in self.dist_types if dist_types is None else dist_types:
                 X_hat = dist_type.inverse_link_function(X_hat)
 
             return np.asarray(X_hat.cpu().detach().numpy().astype(np.float64))
diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3c86528..06b91aa 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -275,11 +275,12 @@ class DAGBase(
 
         # extract the base solver
         structure_learner = self.graph_.graph["structure_learner"]
-        # use base solver to reconstruct data
-        X_hat = structure_learner.reconstruct_data(X)
-
         # get the target dist_type
         target_dist_type = self.graph_.nodes(data=True)[self._target]["dist_type"]
+
+        # use base solver to reconstruct the target
+        X_hat = structure_learner.reconstruct_data(X, dist_types=[target_dist_type])
+
         # pull off reconstructed y columns
         y_pred = target_dist_type.get_columns(X_hat)
 
-- 
2.43.0


From 9721c4e42a783cadbd8b86fc19eb1f5df50fca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 17/30] fix: predict with standardize truncated integer data

---
 causalnex/structure/pytorch/sklearn/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 06b91aa..518b6bc 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -261,7 +261,8 @@ class DAGBase(
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
-            X = X.copy()
+            # copy as float, integer data cannot hold the standardized values
+            X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
                 X[:, self.continuous_col_idxs]
             )
-- 
2.43.0


From 45d60ae47c263ca60151a07a6cd2b7bbef52c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 18/30] fix: rows of X and y were aligned by index when fitting
 DAGRegressor and DAGClassifier

---
 causalnex/structure/pytorch/sklearn/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 518b6bc..88bdca8 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -181,6 +181,8 @@ class DAGBase(
         # force X, y to DataFrame, Series for later calculations
         X = pd.DataFrame(X)
         y = pd.Series(y)
+        # the rows of X and y correspond by position, prevent alignment by index in concat
+        y.index = X.index
         # force name so that name != None (causes errors in notears)
         y.name = y.name or "__target"
 
-- 
2.43.0


From 339a75799ecb98a28e4c79b35d7e030ca0382fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 19/30] fix: coef_, intercept_ and feature_importances_ of
 ordinal targets of three or more classes

---
 causalnex/structure/pytorch/sklearn/clf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index a1a07a5..37e74c1 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -153,6 +153,9 @@ class DAGClassifier(ClassifierMixin, DAGBase):
 
     @property
     def _target_node_names(self) -> List[str]:
+        # only categorical targets are expanded to one node per class
+        if self._target_dist_type != "cat":
+            return [self._target]
         # target node names are build according to
         target_nodes = []
         for catidx in range(len(self.classes_)):
-- 
2.43.0


From 7e2b2b3fe9092b8cbd003e74fc73b8c95fefb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 20/30] fix: DAGClassifier failed for boolean labels and arrays
 of strings

---
 causalnex/structure/pytorch/sklearn/clf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index 37e74c1..87b2aed 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -94,8 +94,12 @@ class DAGClassifier(ClassifierMixin, DAGBase):
 
         # encode the categories to be numeric
         enc = LabelEncoder()
-        y = y.copy()
-        y[:] = enc.fit_transform(y)
+        labels = enc.fit_transform(y)
+        y = (
+            pd.Series(labels, index=y.index, name=y.name)
+            if isinstance(y, pd.Series)
+            else labels
+        )
         # store the classes from the LabelEncoder
         self.classes_ = enc.classes_
 
-- 
2.43.0


From b14dba81a81bc7ac984e1e9ba8d3981ac0f2f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 21/30] fix: DAGClassifier kept the distribution type of an
 earlier fit with another number of classes

---
 causalnex/structure/pytorch/sklearn/_base.py | 1 +
 causalnex/structure/pytorch/sklearn/clf.py   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 88bdca8..19597cb 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -162,6 +162,7 @@ class DAGBase(
         self.tabu_edges = tabu_edges
         self.tabu_parent_nodes = tabu_parent_nodes
         self.tabu_child_nodes = tabu_child_nodes
+        self.target_dist_type = target_dist_type
         self._target_dist_type = target_dist_type
         self.kwargs = kwargs
 
diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index 87b2aed..d3f3d31 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -113,8 +113,10 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             )
 
         # store the protected attr _target_dist_type
-        if self._target_dist_type is None:
-            self._target_dist_type = "cat" if n_classes > 2 else "bin"
+        # NOTE: the default depends on the classes, so an earlier fit is no guide
+        self._target_dist_type = self.target_dist_type or (
+            "cat" if n_classes > 2 else "bin"
+        )
 
         # fit the NOTEARS model
         super().fit(X, y)
-- 
2.43.0


From e1abf9dfe496b0033ee2d6da44e3f080b9a5848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 22/30] fix: standardize failed for data without continuous
 features

---
 causalnex/structure/pytorch/sklearn/_base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 19597cb..4cd674e 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -201,12 +201,14 @@ class DAGBase(
                 if alias == "cont"
             ]
 
-            # copy X to prevet changes to underlying array data
-            X = X.copy()
-            self._ss_X = StandardScaler()
-            X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(
-                X.iloc[:, self.continuous_col_idxs]
-            )
+            # the scaler does not accept data without columns
+            if self.continuous_col_idxs:
+                # copy X to prevet changes to underlying array data
+                X = X.copy()
+                self._ss_X = StandardScaler()
+                X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(
+                    X.iloc[:, self.continuous_col_idxs]
+                )
 
             # if its a continuous target also standardize
             if self._target_dist_type == "cont":
@@ -263,7 +265,7 @@ class DAGBase(
         """
         # force convert to ndarray
         X = np.asarray(X)
-        if self.standardize:
+        if self.standardize and self.continuous_col_idxs:
             # copy as float, integer data cannot hold the standardized values
             X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
-- 
2.43.0


From 8b59a7b875fd17cb7cbba5738ea6d770d801069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 23/30] fix: predict of an unfitted estimator with standardize
 did not raise NotFittedError

---
 causalnex/structure/pytorch/sklearn/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 4cd674e..c741b41 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -263,6 +263,9 @@ class DAGBase(
         Returns:
             Predicted y values for each row of X.
         """
+        # check that the model has been fit
+        check_is_fitted(self)
+
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize and self.continuous_col_idxs:
@@ -276,9 +279,6 @@ class DAGBase(
         y_fill = np.zeros(shape=(X.shape[0], 1))
         X = np.hstack([X, y_fill])
 
-        # check that the model has been fit
-        check_is_fitted(self)
-
         # extract the base solver
         structure_learner = self.graph_.graph["structure_learner"]
         # get the target dist_type
-- 
2.43.0


From 20f055099169e95ac57a8e50417eaffb877826f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 24/30] fix: nodes of expanded columns were merged with columns
 of the same name

---
 causalnex/structure/pytorch/notears.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causalnex/structure/pytorch/notears.py b/causalnex/structure/pytorch/notears.py
index 1cd5557..c9f3fc8 100644
--- a/causalnex/structure/pytorch/notears.py
+++ b/causalnex/structure/pytorch/notears.py
@@ -351,6 +351,13 @@ def from_pandas(
     for dist_type in unique_dist_types:
         idx_col_expanded = dist_type.update_idx_col(idx_col_expanded)
 
+    # two columns under one name would be merged into one node
+    if len(set(idx_col_expanded.values())) < len(idx_col_expanded):
+        raise ValueError(
+            "Names of expanded columns clash with other columns. "
+            "Consider renaming columns of {}".format(list(idx_col.values()))
+        )
+
     sm = StructureModel()
     # add expanded set of nodes
     sm.add_nodes_from(list(idx_col_expanded.values()))
-- 
2.43.0


From cf0c18421feec63c19f23bf3b7f5d77b7aa5aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 25/30] fix: graphviz source named factors by words that are
 not an ID of the language

get_graphviz_source wrote the names of factors without quotes, although they
may contain blanks and other characters (build_bbn_from_conditionals) or be a
keyword (a factor called node), so that the nodes and edges were lost.
---
 causalnex/ebaybbn/bbn.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 2376cbf..e3428c6 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -60,6 +60,15 @@ GREEN = "\033[92m"
 NORMAL = "\033[0m"
 
 
+def _graphviz_id(name):
+    """Name as an ID of the DOT language: quoted unless it can stand for itself"""
+    name = str(name)
+    keywords = ("node", "edge", "graph", "digraph", "subgraph", "strict")
+    if name.isidentifier() and name.lower() not in keywords:
+        return name
+    return '"%s"' % name.replace("\\", "\\\\").replace('"', '\\"')
+
+
 class BBNNode(Node):
     def __init__(self, factor):
         super(BBNNode, self).__init__(factor.__name__)
@@ -97,12 +106,12 @@ class BBN:
         fh.write('  graph [ dpi = 300 bgcolor="transparent" rankdir="LR"];\n')
         edges = set()
         for node in sorted(self.nodes, key=lambda x: x.name):
-            fh.write('  %s [ shape="ellipse" color="blue"];\n' % node.name)
+            fh.write('  %s [ shape="ellipse" color="blue"];\n' % _graphviz_id(node.name))
             for child in node.children:
                 edge = (node.name, child.name)
                 edges.add(edge)
         for source, target in sorted(edges, key=lambda x: (x[0], x[1])):
-            fh.write("  %s -> %s;\n" % (source, target))
+            fh.write("  %s -> %s;\n" % (_graphviz_id(source), _graphviz_id(target)))
         fh.write("}\n")
         return fh.getvalue()
 
-- 
2.43.0


From e7849887f1e296975be6ad97ccf6b4889f89ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 26/30] fix: hidden_layer_units other than a list failed or
 were ignored

An empty tuple raised IndexError instead of standing for no hidden layers,
and iterables without positions failed, although any iterable is accepted.
---
 causalnex/structure/pytorch/notears.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/causalnex/structure/pytorch/notears.py b/causalnex/structure/pytorch/notears.py
index c9f3fc8..f58fbfa 100644
--- a/causalnex/structure/pytorch/notears.py
+++ b/causalnex/structure/pytorch/notears.py
@@ -150,9 +150,8 @@ def from_numpy(
     _, d = X.shape
 
     # if None or empty, convert into a list with single item
-    if hidden_layer_units is None:
-        hidden_layer_units = [0]
-    elif isinstance(hidden_layer_units, list) and not hidden_layer_units:
+    hidden_layer_units = [] if hidden_layer_units is None else list(hidden_layer_units)
+    if not hidden_layer_units:
         hidden_layer_units = [0]
 
     # if no hidden layer units, still take 1 iteration step with bounds
-- 
2.43.0


From 691a56c6258e6ab63499407456d9db2bf0169fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:31 +0000
Subject: [PATCH 27/30] fix: split points of small integer types were wrong

---
 causalnex/discretiser/discretiser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/discretiser/discretiser.py b/causalnex/discretiser/discretiser.py
index c3e26f8..4e2471e 100644
--- a/causalnex/discretiser/discretiser.py
+++ b/causalnex/discretiser/discretiser.py
@@ -170,7 +170,8 @@ class Discretiser(BaseEstimator, TransformerMixin):
             RuntimeError: If an attempt to fit fixed numeric_split_points is made.
         """
 
-        x = data.flatten()
+        # as floats, because differences of small integer types overflow
+        x = data.flatten().astype(float)
         x.sort()
 
         if self.method == "uniform":
-- 
2.43.0


From 492a718b0d50bcf673298816cd3a1957f67e4534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 28/30] fix: the logit noise of categorical variables was not
 its alias, Gumbel

---
 causalnex/structure/data_generators/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index 407c57d..7720756 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -473,6 +473,10 @@ def _sample_categories_from_latent(
     one_hot = np.empty_like(latent_mean)
     n_samples, n_cardinality = latent_mean.shape
 
+    # 'gumbel' is an alias: Gumbel noise on each category makes a logit model
+    if distribution == "logit":
+        distribution = "gumbel"
+
     # try and get the requested distribution from the mapper
     distribution_func = __distribution_mapper.get(distribution, None)
     if distribution_func is None:
-- 
2.43.0


From 8ea7456f420aec7cea11db965d31a307b092318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 29/30] fix: nonlinear generator gives noise below a constant
 parent

The draws of the Gaussian process for equal inputs differ by rounding (or by
the regularisation, in batches), and scaling made this the variance.
---
 causalnex/structure/data_generators/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index 7720756..f642eeb 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -811,6 +811,11 @@ def _gp_index(
     if x.shape[1] == 0:
         return np.zeros(shape=(x.shape[0],))
 
+    # if all inputs are the same, so is f(x), and there is no variance to scale
+    if (x == x[0]).all():
+        y, _ = _unconditional_sample(x[:1], kernel=kernel)
+        return np.repeat(y, x.shape[0])
+
     use_batches = x.shape[0] > max_chunk_size
 
     if not use_batches:
-- 
2.43.0


From cbaed8de6ef76ac92e4bbf22d44ff87f1e44338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 30/30] fix: series of dynamic structures without some lagged
 nodes were wrong or failed

---
 causalnex/structure/data_generators/wrappers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 13884b9..d221a69 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -553,6 +553,15 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
         (el for el in g.nodes if "_lag0" not in el),
         key=lambda el: (int(el.split("_lag")[-1]), el),
     )
+
+    # simulate all variables at all lags, even those that are not in the graph
+    columns = intra_nodes + inter_nodes
+    lags = range(1, 1 + max((int(el.split("_lag")[-1]) for el in inter_nodes), default=0))
+    intra_nodes = sorted({el[: el.rindex("_lag")] + "_lag0" for el in columns})
+    inter_nodes = [el[:-1] + str(lag) for lag in lags for el in intra_nodes]
+    g = nx.DiGraph(g)
+    g.add_nodes_from(intra_nodes + inter_nodes)
+
     w_mat = nx.to_numpy_array(g, nodelist=intra_nodes)
     a_mat = nx.to_numpy_array(g, nodelist=intra_nodes + inter_nodes)[
         len(intra_nodes) :, : len(intra_nodes)
@@ -593,7 +602,7 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
             pd.DataFrame(Xlags[-n_samples:], columns=inter_nodes),
         ],
         axis=1,
-    )
+    )[columns]
 
 
 def gen_stationary_dyn_net_and_df(  # pylint: disable=R0913, R0914
-- 
2.43.0

