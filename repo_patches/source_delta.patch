From 831470499c111d1d8610b25b828c16471d6f0e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:53 +0000
Subject: [PATCH 01/31] fix: constrain every storage of a node, not only the
 first one

---
 hadar/optimizer/lp/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index e2eb4bd..406e01b 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -295,6 +295,7 @@ class StorageBuilder:
     def add_node(
         self, name_network: str, name_node: str, node: LPNode, t: int
     ) -> Constraint:
+        const = None
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
@@ -302,7 +303,6 @@ class StorageBuilder:
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
             else:
                 const = self.solver.Constraint(0, 0)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
@@ -311,7 +311,7 @@ class StorageBuilder:
                     self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                 )
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
+        return const
 
     def build(self):
         pass  # Currently nothing are need at the end. But we keep builder pattern syntax
-- 
2.43.0


From a9fb2013ff5067f3d275b0cbb69959c6c1976a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:19 +0000
Subject: [PATCH 02/31] fix: give every storage its own rows in the storage
 table

---
 hadar/analyzer/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 01c33e8..adb5653 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -331,6 +331,8 @@ class ResultAnalyzer:
                     stor.loc[slices, "t"] = np.tile(np.arange(h), scn)
                     stor.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
 
+                    n_stor += 1
+
         return stor
 
     @staticmethod
-- 
2.43.0


From 94012038a185a0c3579b57c361404f368269ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:26 +0000
Subject: [PATCH 03/31] fix: size the destination converter table by number of
 converters

---
 hadar/analyzer/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index adb5653..acbccfe 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -386,7 +386,7 @@ class ResultAnalyzer:
     def _build_dest_converter(study: Study, result: Result):
         h = study.horizon
         scn = study.nb_scn
-        elements = sum([len(v.src_ratios) for v in study.converters.values()])
+        elements = len(study.converters)
         size = h * scn * elements
 
         dest_conv = {
-- 
2.43.0


From 53a31241df4bd3fc984fc888a6e34026065d97c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:34 +0000
Subject: [PATCH 04/31] fix: label rows of the source converter table source by
 source

---
 hadar/analyzer/result.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index acbccfe..8839a61 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -431,16 +431,12 @@ class ResultAnalyzer:
 
         s = 0
         for name, v in study.converters.items():
-            src_size = len(v.src_ratios)
-            e = s + h * scn * src_size
-            slices = src_conv.index[s:e]
-            src_conv.loc[slices, "name"] = v.name
-            src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
-            src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h * src_size)
-
-            for i_src, (net, node) in enumerate(v.src_ratios.keys()):
-                e = s + h * scn * (i_src + 1)
+            for net, node in v.src_ratios.keys():
+                e = s + h * scn
                 slices = src_conv.index[s:e]
+                src_conv.loc[slices, "name"] = v.name
+                src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
+                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
                 src_conv.loc[slices, "max"] = v.max.flatten()
@@ -449,7 +445,6 @@ class ResultAnalyzer:
                     result.converters[name].flow_src[(net, node)].flatten()
                 )
                 s = e
-            s = e
 
         src_conv.loc[:, "max"] /= src_conv[
             "ratio"
-- 
2.43.0


From 1908b419637ceb04a6c4e679050839ee55e42786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:41 +0000
Subject: [PATCH 05/31] fix: do not alter a fluent analyzer query when it is
 extended

---
 hadar/analyzer/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 8839a61..b036dc0 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -798,8 +798,8 @@ class NetworkFluentAPISelector:
         :param index:
         :return:
         """
-        self.indexes.append(index)
-        if len(self.indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
-            return self.analyzer.filter(self.indexes)
+        indexes = deepcopy(self.indexes) + [index]
+        if len(indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
+            return self.analyzer.filter(indexes)
         else:
-            return NetworkFluentAPISelector(deepcopy(self.indexes), self.analyzer)
+            return NetworkFluentAPISelector(indexes, self.analyzer)
-- 
2.43.0


From 6dc63e81279600b7aec501f8138c9ae2b8d1c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:07 +0000
Subject: [PATCH 06/31] fix: keep the last index level when a query selects
 single values only

---
 hadar/analyzer/result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index b036dc0..ac51c15 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -464,7 +464,11 @@ class ResultAnalyzer:
         :return: dataframe trimed with useless index(es) level
         """
         # TODO refactor without the help of indexes
-        if indexes[0].is_alone() and indexes[0].index[0] in df.index:
+        if (
+            len(indexes) > 1
+            and indexes[0].is_alone()
+            and indexes[0].index[0] in df.index
+        ):
             df = df.loc[indexes[0].index[0]].copy()
             return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
         else:
-- 
2.43.0


From 1419e10b90dbcdfb64d0f58dedde793d759ce800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:35 +0000
Subject: [PATCH 07/31] fix: support slices without start or stop in time and
 scenario queries

---
 hadar/analyzer/result.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index ac51c15..d4fb1cd 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -131,13 +131,23 @@ class IntIndex(Index[int]):
         :param start: start datetime to filter (to use instead of index)
         :param end: end datetime to filter (to use instead of index)
         """
+        self.slice = None
         if isinstance(index, slice):
-            start = 0 if index.start is None else index.start
-            stop = -1 if index.start is None else index.stop
-            step = 1 if index.step is None else index.step
-            index = tuple(range(start, stop, step))
+            if index.stop is None:
+                # Upper bound is only known by data, keep slice to apply it during filtering
+                self.slice, index = index, None
+            else:
+                start = 0 if index.start is None else index.start
+                step = 1 if index.step is None else index.step
+                index = tuple(range(start, index.stop, step))
         Index.__init__(self, column=column, index=index)
 
+    def filter(self, df: pd.DataFrame) -> pd.Series:
+        if self.slice is None:
+            return Index.filter(self, df)
+        size = 0 if df.empty else int(df[self.column].max()) + 1
+        return df[self.column].isin(range(*self.slice.indices(size)))
+
 
 class TimeIndex(IntIndex):
     """Index implementation to filter by time step"""
-- 
2.43.0


From aa61a9aeca9a863d631f6407df4ddc9ad0cdf476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:41 +0000
Subject: [PATCH 08/31] fix: reject series with some negative values, not only
 fully negative ones

---
 hadar/optimizer/domain/input.py   | 12 ++++++------
 hadar/optimizer/domain/numeric.py |  6 ++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 035fc2b..6273d51 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -342,7 +342,7 @@ class Study(JSON):
             raise ValueError("link destination must be unique on a node")
 
         quantity = self.factory.create(quantity)
-        if quantity < 0:
+        if not quantity >= 0:
             raise ValueError("Link quantity must be positive")
 
         cost = self.factory.create(cost)
@@ -369,7 +369,7 @@ class Study(JSON):
             raise ValueError("production name must be unique on a node")
 
         prod.quantity = self.factory.create(prod.quantity)
-        if prod.quantity < 0:
+        if not prod.quantity >= 0:
             raise ValueError("Production quantity must be positive")
 
         prod.cost = self.factory.create(prod.cost)
@@ -382,7 +382,7 @@ class Study(JSON):
             raise ValueError("consumption name must be unique on a node")
 
         cons.quantity = self.factory.create(cons.quantity)
-        if cons.quantity < 0:
+        if not cons.quantity >= 0:
             raise ValueError("Consumption quantity must be positive")
 
         cons.cost = self.factory.create(cons.cost)
@@ -394,15 +394,15 @@ class Study(JSON):
 
         store.flow_in = self.factory.create(store.flow_in)
         store.flow_out = self.factory.create(store.flow_out)
-        if store.flow_in < 0 or store.flow_out < 0:
+        if not (store.flow_in >= 0 and store.flow_out >= 0):
             raise ValueError("storage flow must be positive")
 
         store.capacity = self.factory.create(store.capacity)
-        if store.capacity < 0 or store.init_capacity < 0:
+        if not (store.capacity >= 0 and store.init_capacity >= 0):
             raise ValueError("storage capacities must be positive")
 
         store.eff = self.factory.create(store.eff)
-        if store.eff < 0 or store.eff > 1:
+        if not (store.eff >= 0 and store.eff <= 1):
             raise ValueError("storage efficiency must be in ]0, 1[")
 
         store.cost = self.factory.create(store.cost)
diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 18291f9..10119d3 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -91,9 +91,15 @@ class NumpyNumericalValue(NumericalValue[np.ndarray], ABC):
     def __lt__(self, other) -> bool:
         return np.all(self.value < other)
 
+    def __le__(self, other) -> bool:
+        return np.all(self.value <= other)
+
     def __gt__(self, other) -> bool:
         return np.all(self.value > other)
 
+    def __ge__(self, other) -> bool:
+        return np.all(self.value >= other)
+
 
 class MatrixNumericalValue(NumpyNumericalValue):
     """
-- 
2.43.0


From 9f73cb39e134285821aad3ca44b0db3ea00cb407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:47 +0000
Subject: [PATCH 09/31] fix: reject a link from a node to itself

---
 hadar/optimizer/domain/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 6273d51..730176a 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -338,6 +338,8 @@ class Study(JSON):
             raise ValueError("link source must be a valid node")
         if dest not in self.networks[network].nodes.keys():
             raise ValueError("link destination must be a valid node")
+        if src == dest:
+            raise ValueError("link source and destination must be different")
         if dest in [l.dest for l in self.networks[network].nodes[src].links]:
             raise ValueError("link destination must be unique on a node")
 
-- 
2.43.0


From 3b1cab44f683879257cc5af8850241a1759f2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 10/31] fix: do not redirect an earlier node selector when
 another node is selected

---
 hadar/optimizer/domain/input.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 730176a..915f062 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -466,9 +466,8 @@ class NetworkFluentAPISelector:
         :param name: node to select when changing level
         :return: NodeFluentAPISelector initialized
         """
-        self.selector["node"] = name
         self.study.add_node(network=self.selector["network"], node=name)
-        return NodeFluentAPISelector(self.study, self.selector)
+        return NodeFluentAPISelector(self.study, {**self.selector, "node": name})
 
     def link(
         self,
-- 
2.43.0


From 005036b319f905ca23bb70a22fdbd78f85df22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:58 +0000
Subject: [PATCH 11/31] fix: stay on current network after adding a converter
 with the fluent api

---
 hadar/optimizer/domain/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 915f062..3202e8f 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -527,7 +527,7 @@ class NetworkFluentAPISelector:
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
-        return NetworkFluentAPISelector(selector={}, study=self.study)
+        return NetworkFluentAPISelector(selector=self.selector, study=self.study)
 
     def build(self):
         """
@@ -669,7 +669,7 @@ class NodeFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        return NetworkFluentAPISelector(selector={}, study=self.study).converter(
+        return NetworkFluentAPISelector(self.study, self.selector).converter(
             name=name, to_network=to_network, to_node=to_node, max=max, cost=cost
         )
 
-- 
2.43.0


From e8d0047ee0551769d527cb8994eb9749cef6aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:37 +0000
Subject: [PATCH 12/31] fix: leave the study unchanged when a converter is
 refused

---
 hadar/optimizer/domain/input.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 3202e8f..4250c3d 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -420,12 +420,14 @@ class Study(JSON):
     def _add_converter_src(
         self, name: str, network: str, node: str, ratio: NumericalValueType
     ):
-        if (network, node) in self.converters[name].src_ratios:
+        conv = self.converters.get(name)
+        if conv is not None and (network, node) in conv.src_ratios:
             raise ValueError(
                 "converter input already has node %s on network %s" % (node, network)
             )
 
         ratio = self.factory.create(ratio)
+        self._add_converter(name=name)
         self.converters[name].src_ratios[(network, node)] = ratio
 
     def _set_converter_dest(
@@ -436,7 +438,8 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if self.converters[name].dest_network and self.converters[name].dest_node:
+        conv = self.converters.get(name)
+        if conv is not None and conv.dest_network and conv.dest_node:
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
@@ -444,10 +447,13 @@ class Study(JSON):
         ):
             raise ValueError("Node %s is not present in network %s" % (node, network))
 
+        cost = self.factory.create(cost)
+        max = self.factory.create(max)
+        self._add_converter(name=name)
         self.converters[name].dest_network = network
         self.converters[name].dest_node = node
-        self.converters[name].cost = self.factory.create(cost)
-        self.converters[name].max = self.factory.create(max)
+        self.converters[name].cost = cost
+        self.converters[name].max = max
 
 
 class NetworkFluentAPISelector:
@@ -523,7 +529,6 @@ class NetworkFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
@@ -681,7 +686,6 @@ class NodeFluentAPISelector:
         :param ratio: ratio for output
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._add_converter_src(
             name=name,
             network=self.selector["network"],
-- 
2.43.0


From 46dc4e93b2b918c89bdd6e36c207d1602c4271e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:43 +0000
Subject: [PATCH 13/31] fix: do not alter the document a result is imported
 from

---
 hadar/optimizer/domain/output.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index be26482..7045f43 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -273,6 +273,7 @@ class Result(JSON):
 
     @staticmethod
     def from_json(dict, factory=None):
+        dict = deepcopy(dict)
         return Result(
             networks={
                 k: OutputNetwork.from_json(v) for k, v in dict["networks"].items()
-- 
2.43.0


From e5e0c6f18bb6c6c8fd5f930088057e6454dc2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:45 +0000
Subject: [PATCH 14/31] fix: do not rename columns of the data frame given to a
 pipeline

---
 hadar/workflow/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index bdc32e6..f8de7dd 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -309,6 +309,7 @@ class Stage(ABC):
         # Add 0th scenarios column if not present.
         if not isinstance(timeline.columns, MultiIndex):
             columns = timeline.columns.values
+            timeline = timeline.copy()
             timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])
 
         return timeline
-- 
2.43.0


From 01a9af056a666319ff50c66c72bbf19aa9fbdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:51 +0000
Subject: [PATCH 15/31] fix: keep time index and all columns in per-scenario
 stages

---
 hadar/workflow/pipeline.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index f8de7dd..5b16e03 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -381,18 +381,14 @@ class FocusStage(Stage, ABC):
         :param timeline:
         :return:
         """
-        scenarios = timeline.columns.get_level_values(0).unique()
-
-        n_scn = len(scenarios)
-        n_time = timeline.shape[0]
-        n_type = len(self.plug.outputs)
-
-        index = FocusStage.build_multi_index(scenarios, names=self.plug.outputs)
-
-        output = pd.DataFrame(data=np.zeros((n_time, n_type * n_scn)), columns=index)
+        output = dict()
         for scn in timeline.columns.get_level_values(0).unique():
-            output[scn] = self._process_scenarios(scn, timeline[scn].copy())
-        return output
+            scenario = self._process_scenarios(scn, timeline[scn].copy())
+            # declared outputs come first, followed by columns not used by this stage
+            names = list(self.plug.outputs)
+            names += [name for name in scenario.columns if name not in names]
+            output[scn] = scenario[names]
+        return pd.concat(output, axis=1)
 
 
 class Clip(Stage):
-- 
2.43.0


From 2b19275ac2b04121e81c710c582852a61523e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:57 +0000
Subject: [PATCH 16/31] fix: do not alter a stage plug when it is linked after
 another one

---
 hadar/workflow/pipeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 5b16e03..1d74477 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -149,8 +149,8 @@ class RestrictedPlug(Plug):
             return self
 
         # keep output not used by next pipeline and add next outputs
-        next.outputs += [e for e in self.outputs if e not in next.inputs]
-        return RestrictedPlug(inputs=self.inputs, outputs=next.outputs)
+        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]
+        return RestrictedPlug(inputs=self.inputs, outputs=outputs)
 
 
 class Pipeline:
-- 
2.43.0


From 0dd612a0203c37edd6491b0fc73595fa2defd0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:03 +0000
Subject: [PATCH 17/31] fix: return a new pipeline when a stage is added

---
 hadar/workflow/pipeline.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 1d74477..13a7923 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -195,9 +195,7 @@ class Pipeline:
                 % (self.plug.outputs, other.__class__.__name__, other.plug.inputs)
             )
 
-        self.plug += other.plug
-        self.stages.append(other)
-        return self
+        return Pipeline(stages=self.stages + [other])
 
     def __call__(self, timeline):
         """
-- 
2.43.0


From 7e775d58793e965f32769bbc07a2243025593736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:09 +0000
Subject: [PATCH 18/31] fix: check a new stage against all columns provided by
 the previous stages

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 13a7923..487081a 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -171,7 +171,7 @@ class Pipeline:
         # Verify stage linkable capacity
         for i in range(0, len(stages) - 1):
             curr, next = stages[i], stages[i + 1]
-            if not curr.plug.linkable_to(next.plug):
+            if not self.plug.linkable_to(next.plug):
                 raise ValueError(
                     "Pipeline can't be added current outputs are %s and %s has input %s"
                     % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
-- 
2.43.0


From de64bfbb6bde69f5af0d344033473c986211efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:15 +0000
Subject: [PATCH 19/31] fix: keep time index and column labels when scenarios
 are repeated

---
 hadar/workflow/pipeline.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 487081a..1216a81 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -542,12 +542,7 @@ class RepeatScenario(Stage):
         self.n = n
 
     def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:
-        data = np.tile(timeline.values, self.n)
+        scenarios = [timeline[scn] for scn in Stage.get_scenarios(timeline)]
+        data = scenarios * self.n
 
-        n_scn = Stage.get_scenarios(timeline).size
-        names = Stage.get_names(timeline)
-        index = Stage.build_multi_index(
-            scenarios=np.arange(0, n_scn * self.n), names=names
-        )
-
-        return pd.DataFrame(data=data, columns=index)
+        return pd.concat(data, axis=1, keys=range(len(data)))
-- 
2.43.0


From 93022fa950f3ae61fa94c14a783356c4ec71af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:21 +0000
Subject: [PATCH 20/31] fix: accept zero as fault seed

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 1216a81..3e91378 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -507,7 +507,7 @@ class Fault(FocusStage):
         self.seed = seed
 
     def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:
-        if self.seed:
+        if self.seed is not None:
             np.random.seed(self.seed)
 
         horizon = scenario.shape[0]
-- 
2.43.0


From 0bcd13fcfbde6dd95517b1ac97330d7ea1f88fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 21/31] fix: draw independent scenarios in each shuffler worker

---
 hadar/workflow/shuffler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 76ee6f8..312667e 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -5,6 +5,7 @@
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import multiprocessing
+import os
 
 import numpy as np
 import pandas as pd
@@ -90,6 +91,9 @@ def compute(params):
     :param params: (timeline, number of scenarios, timeline name)
     :return: (name, sampling)
     """
+    # Workers are forked with the same random state, reseed to keep draws independent
+    np.random.seed(int.from_bytes(os.urandom(4), byteorder="little"))
+
     tl, nb, name = params
     return name, tl.sample(nb)
 
-- 
2.43.0


From 0559de6cc77f8eb8f07392f7673fab5dd1a8f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:34 +0000
Subject: [PATCH 22/31] fix: release worker processes after shuffle

---
 hadar/workflow/shuffler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 312667e..61ea4d4 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -147,8 +147,8 @@ class Shuffler:
         :return:
         """
         # Compute pipelines
-        pool = multiprocessing.Pool()
-        res = pool.map(
-            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
-        )
+        with multiprocessing.Pool() as pool:
+            res = pool.map(
+                compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
+            )
         return dict(res)
-- 
2.43.0


From ee2f553677c5291f55583817177f707109adc82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:40 +0000
Subject: [PATCH 23/31] fix: release worker processes after solve

---
 hadar/optimizer/lp/optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 406e01b..4e406f8 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -447,10 +447,10 @@ def solve_lp(study: Study, out_mapper=None) -> Result:
 
     out_mapper = out_mapper or OutputMapper(study)
 
-    pool = multiprocessing.Pool()
-    serialized_out = pool.map(
-        _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
-    )
+    with multiprocessing.Pool() as pool:
+        serialized_out = pool.map(
+            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
+        )
 
     compute_finished = time.time()
     for scn in range(0, study.nb_scn):
-- 
2.43.0


From 20cc33f037cf39a9d568e14c3e51986f13d2311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:47 +0000
Subject: [PATCH 24/31] fix: raise an error when the solver finds no solution

---
 hadar/optimizer/lp/optimizer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 4e406f8..6645c76 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -404,7 +404,17 @@ def _solve_batch(params) -> bytes:
 
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
-    solver.Solve()
+    status = solver.Solve()
+    if status in (
+        Solver.INFEASIBLE,
+        Solver.UNBOUNDED,
+        Solver.ABNORMAL,
+        Solver.MODEL_INVALID,
+        Solver.NOT_SOLVED,
+    ):
+        raise ValueError(
+            "Solver can't find a solution for scenario %d (status %d)" % (i_scn, status)
+        )
 
     problem_solved = time.time()
     logger.info("Solver finish cost=%d", solver.Objective().Value())
-- 
2.43.0


From 3ec7144acf1aae7eb606a5c827bab9366b58f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:53 +0000
Subject: [PATCH 25/31] fix: report every http error code from remote server

---
 hadar/optimizer/remote/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/optimizer/remote/optimizer.py b/hadar/optimizer/remote/optimizer.py
index 9ba1a49..179a42f 100644
--- a/hadar/optimizer/remote/optimizer.py
+++ b/hadar/optimizer/remote/optimizer.py
@@ -30,6 +30,8 @@ def check_code(code):
         raise ValueError("Wrong token given")
     if code == 500:
         raise IOError("Error has occurred on remote server")
+    if code >= 400:
+        raise IOError("Remote server has answered with error code %d" % code)
 
 
 def solve_remote(study: Study, url: str, token: str = "none") -> Result:
-- 
2.43.0


From e9e81e0e6820059b99b3c9a7d69ad53687a94827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:26 +0000
Subject: [PATCH 26/31] fix: plot converter gaussian of the scenario asked for

---
 hadar/viewer/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/viewer/abc.py b/hadar/viewer/abc.py
index 5154d47..24e01bf 100644
--- a/hadar/viewer/abc.py
+++ b/hadar/viewer/abc.py
@@ -644,8 +644,8 @@ class SrcConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .to_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
@@ -762,8 +762,8 @@ class DestConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .from_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
-- 
2.43.0


From d31621190ec489fd9317f16bbbaee4f2303e7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:22 +0000
Subject: [PATCH 27/31] fix: convert series to float so integer series can be
 solved

Integer arrays given as cost, ratio, efficiency... reached ortools as numpy
integers, which it refuses: solve crashed with a TypeError.
---
 hadar/optimizer/domain/numeric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 10119d3..5d5d066 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -191,6 +191,9 @@ class NumericalValueFactory:
             value = np.array(value)
 
         if isinstance(value, np.ndarray):
+            # Solver accepts only python number or numpy float, never numpy integer
+            value = value.astype(float)
+
             # If scenario are not provided copy timeseries for each scenario
             if value.shape == (self.horizon,):
                 return RowNumericValue(
-- 
2.43.0


From 506cacc97f424fff877420157c747c0075236d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:27 +0000
Subject: [PATCH 28/31] fix: reject a zero-dimension array with ValueError

create(np.array(5)) failed with IndexError while writing its error message.
---
 hadar/optimizer/domain/numeric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 5d5d066..82232d3 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -213,8 +213,8 @@ class NumericalValueFactory:
                 )
 
             # If any size pattern matches, raise error on quantity size given
-            horizon_given = value.shape[0] if len(value.shape) == 1 else value.shape[1]
-            sc_given = 1 if len(value.shape) == 1 else value.shape[0]
+            horizon_given = value.shape[-1] if value.shape else 1
+            sc_given = 1 if len(value.shape) <= 1 else value.shape[0]
             raise ValueError(
                 "Array must be: a number, an array like (horizon, ) or (nb_scn, 1) or (nb_scn, horizon). "
                 "In your case horizon specified is %d and actual is %d. "
-- 
2.43.0


From 66950da15a2e48be8fddfcaf766eb4118666ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:18 +0000
Subject: [PATCH 29/31] fix: shuffle only the shuffler column whatever the
 other column names

A remaining column whose name is falsy ('' or 0) was kept and sampled as a
scenario.
---
 hadar/workflow/shuffler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 61ea4d4..153fd3e 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -79,7 +79,7 @@ class TimelinePipeline(Timeline):
         """
         res = self.pipeline(self.df)
         drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
-        if drop_columns.any():
+        if len(drop_columns) > 0:
             res = res.drop(drop_columns, axis=1, level=1)
         return res.values.T
 
-- 
2.43.0


From 7dd789873acbba7591bd8a7234b9e9c50c5c9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 30/31] fix: draw a remaining capacity matrix without failed or
 passed cell

---
 hadar/viewer/html.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hadar/viewer/html.py b/hadar/viewer/html.py
index e791890..1b4df1f 100644
--- a/hadar/viewer/html.py
+++ b/hadar/viewer/html.py
@@ -231,8 +231,10 @@ class HTMLElementPlotting(ABCElementPlotting):
 
     def matrix(self, data: np.ndarray, title):
         def sdt(x):
-            x[x > 0] /= np.max(x[x > 0])
-            x[x < 0] /= -np.min(x[x < 0])
+            if (x > 0).any():
+                x[x > 0] /= np.max(x[x > 0])
+            if (x < 0).any():
+                x[x < 0] /= -np.min(x[x < 0])
             return x
 
         fig = go.Figure(
-- 
2.43.0


From acf24ccdfdaa45292f113126673cdaca1cd5eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:06 +0000
Subject: [PATCH 31/31] fix: let the default sampler follow the reseed of each
 shuffler worker

numpy.random.randint is a method of the global generator: sent to a worker it
is pickled with a copy of that generator, so every timeline of every shuffle
drew the same rows whatever the seed of the worker.
---
 hadar/workflow/shuffler.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 153fd3e..478166d 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -9,13 +9,25 @@ import os
 
 import numpy as np
 import pandas as pd
-from numpy.random import randint
 
 from hadar.workflow.pipeline import Pipeline, TO_SHUFFLER, Stage
 
 __all__ = ["Shuffler", "Timeline"]
 
 
+def randint(low: int, high: int, size: int) -> np.ndarray:
+    """
+    Default sampler. numpy.random.randint itself can't be given to workers: it is pickled with a copy of
+    its generator, then draws are the same in every worker and don't depend on reseed.
+
+    :param low: smallest integer to draw
+    :param high: one above the biggest integer to draw
+    :param size: number of integers to draw
+    :return: integers drawn
+    """
+    return np.random.randint(low, high, size)
+
+
 class Timeline:
     """
     Manage data used to generate timeline. Perform sampling too.
-- 
2.43.0

