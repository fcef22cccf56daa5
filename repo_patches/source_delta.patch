From ca39a348b270f68bd28f257d8ec8cd3ff9922252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:23 +0000
Subject: [PATCH 01/62] fix: treat inputs=None as no inputs when deciding which
 optional inputs execution needs

get_upstream_nodes() treats runtime_inputs=None as 'compile time' and keeps every optional input.
Driver.execute()/materialize()/validate_*() passed None through when the caller gave no inputs, so an
unsupplied optional input could be reported as a missing required one (when its only required use
was cut by an override), while inputs={} worked.
---
 hamilton/async_driver.py |  2 +-
 hamilton/driver.py       | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 63d3a8b..f6bfacc 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -293,7 +293,7 @@ class AsyncDriver(driver.Driver):
             "-- the only reason you'd do this is to use materialize(), which is not supported yet.."
         )
         run_id = str(uuid.uuid4())
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs or {}, overrides)
         memoized_computation = dict()  # memoized storage
         if self.adapter.does_hook("pre_graph_execute"):
             await self.adapter.call_all_lifecycle_hooks_sync_and_async(
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 868764e..c6cb17d 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -730,7 +730,7 @@ class Driver:
         """
         function_graph = _fn_graph if _fn_graph is not None else self.graph
         run_id = str(uuid.uuid4())
-        nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs or {}, overrides)
         Driver.validate_inputs(
             function_graph, self.adapter, user_nodes, inputs, nodes
         )  # TODO -- validate within the function graph itself
@@ -804,7 +804,7 @@ class Driver:
         """
         function_graph = _fn_graph if _fn_graph is not None else self.graph
         run_id = _run_id
-        nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs or {}, overrides)
         Driver.validate_inputs(
             function_graph, self.adapter, user_nodes, inputs, nodes
         )  # TODO -- validate within the function graph itself
@@ -1677,7 +1677,7 @@ class Driver:
                 )
 
             nodes, user_nodes = function_graph.get_upstream_nodes(
-                final_vars + materializer_vars, inputs, overrides
+                final_vars + materializer_vars, inputs or {}, overrides
             )
             Driver.validate_inputs(function_graph, self.adapter, user_nodes, inputs, nodes)
             all_nodes = nodes | user_nodes
@@ -1803,7 +1803,7 @@ class Driver:
         :param inputs: Inputs to pass to execution.
         :raise ValueError: if any issues with executino can be detected.
         """
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs or {}, overrides)
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         self.graph_executor.validate(list(nodes | user_nodes))
 
@@ -1838,7 +1838,7 @@ class Driver:
         # need to validate the right inputs has been provided.
         # we do this on the modified graph.
         nodes, user_nodes = function_graph.get_upstream_nodes(
-            final_vars + materializer_vars, inputs, overrides
+            final_vars + materializer_vars, inputs or {}, overrides
         )
         Driver.validate_inputs(function_graph, self.adapter, user_nodes, inputs, nodes)
         all_nodes = nodes | user_nodes
-- 
2.43.0


From 576369c269491e208123930a3663e1e8b8ecccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:07 +0000
Subject: [PATCH 02/62] fix: run fan-out blocks that a grouping strategy splits
 into several tasks

The realized dependency on a sibling task of the same block instance was a task id string, whose
characters were then taken for task ids, so the task was never launched and execution looped forever;
and the sibling's results were looked up without the block instance they are stored under.
---
 hamilton/execution/state.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index f121826..7eb723b 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -284,7 +284,7 @@ class ExecutionState:
             for new_task in new_tasks:
                 # We replace the dependencies with the new task ids
                 new_task.realized_dependencies = {
-                    dependency: name_map[dependency] if dependency in name_map else [dependency]
+                    dependency: [name_map[dependency] if dependency in name_map else dependency]
                     for dependency in new_task.base_dependencies
                 }
                 # We add the new tasks to the task pool
@@ -476,6 +476,23 @@ class ExecutionState:
                             )[collector_arg]
                         )
                     del task.realized_dependencies[dependency_base]
+        elif task.group_id is not None:
+            # Results of the other tasks in this repeated block are stored under this group
+            for dependencies in task.realized_dependencies.values():
+                for dependency in dependencies:
+                    dependent_task = self.task_pool[dependency]
+                    if dependent_task.group_id != task.group_id:
+                        continue
+                    vars_in_group = [
+                        item
+                        for item in required_input_vars + optional_input_vars
+                        if item not in dynamic_inputs and dependent_task.produces(item)
+                    ]
+                    dynamic_inputs.update(
+                        self.result_cache.read(
+                            vars_in_group, task.group_id, task.spawning_task_id
+                        )
+                    )
         # Then we go through the rest -- these just fill in the other args
         input_vars_to_read = [
             item
@@ -484,8 +501,8 @@ class ExecutionState:
         ]
         dynamic_inputs = {**dynamic_inputs, **self.result_cache.read(input_vars_to_read)}
         dynamic_inputs = {
-            **dynamic_inputs,
             **self.result_cache.read(optional_input_vars, optional=True),
+            **dynamic_inputs,
         }
         return task.bind(dynamic_inputs)
 
-- 
2.43.0


From 7220b86941e66d05259aecfd288cf9d9b990e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:29 +0000
Subject: [PATCH 03/62] fix: do not run a fan-out block on the whole list when
 its expand node is overridden

With the expand node overridden the block had no dependencies left, so besides once per item it was
also executed once with the complete list in place of an item.
---
 hamilton/execution/grouping.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index ed68ffd..3eefffc 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -349,9 +349,11 @@ def create_task_plan(
         for node_ in node_group.nodes:
             # If this is overridden we can skip it
             # Note there may be a strange bug with grouping/overrides (E.G. downstream of overrides)
+            # Tasks that consume an (overridden) expand node still have to wait for it to fan out
+            if node_.name not in overrides or node_.node_role == NodeType.EXPAND:
+                node_to_task_map[node_.name] = node_group
             if node_.name in overrides:
                 continue
-            node_to_task_map[node_.name] = node_group
             is_output = False
             if node_.name in outputs_set:
                 is_output = True
@@ -390,7 +392,9 @@ def create_task_plan(
             if node_.name in overrides:
                 continue
             for dependency in node_.dependencies:
-                if dependency.name not in overrides and dependency.name not in nodes_in_group:
+                if (
+                    dependency.name not in overrides or dependency.node_role == NodeType.EXPAND
+                ) and dependency.name not in nodes_in_group:
                     task_containing_dependency = node_to_task_map.get(dependency.name)
                     # If its optional, we don't need to add it as a dependency
                     if task_containing_dependency is None and not node_.requires(dependency.name):
-- 
2.43.0


From 14627ab7fc004765a0c24e0a0fafce18af20834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:29 +0000
Subject: [PATCH 04/62] fix: collecting a Parallelizable directly yields its
 items, not a list holding the list

---
 hamilton/execution/state.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index 7eb723b..b13931a 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -468,13 +468,16 @@ class ExecutionState:
                 if produces_collector_arg:
                     for dependency in dependencies:
                         dependent_task = self.task_pool[dependency]
-                        dynamic_inputs[collector_arg].append(
-                            self.result_cache.read(
-                                [collector_arg],
-                                dependent_task.group_id,
-                                dependent_task.spawning_task_id,
-                            )[collector_arg]
-                        )
+                        result = self.result_cache.read(
+                            [collector_arg],
+                            dependent_task.group_id,
+                            dependent_task.spawning_task_id,
+                        )[collector_arg]
+                        if dependent_task.purpose.is_expander():
+                            # Collecting the expanded values directly, with nothing in between
+                            dynamic_inputs[collector_arg].extend(result)
+                        else:
+                            dynamic_inputs[collector_arg].append(result)
                     del task.realized_dependencies[dependency_base]
         elif task.group_id is not None:
             # Results of the other tasks in this repeated block are stored under this group
-- 
2.43.0


From 4465d1eb5dab0dbe22ac99f3ba9b341872719183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:29 +0000
Subject: [PATCH 05/62] fix: an override takes precedence over an input of the
 same name in task-based execution

The default executor already gives the override precedence.
---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index c6cb17d..2f64d21 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -237,7 +237,7 @@ class TaskBasedGraphExecutor(GraphExecutor):
         )  # pure function transform
         # Instantiate a result cache so we can use later
         # Pass in inputs so we can pre-populate the results cache
-        prehydrated_results = {**overrides, **inputs}
+        prehydrated_results = {**inputs, **overrides}
         results_cache = state.DictBasedResultCache(prehydrated_results)
         # Create tasks from the grouped nodes, filtering/pruning as we go
         tasks = grouping.create_task_plan(grouped_nodes, final_vars, overrides, self.adapter)
-- 
2.43.0


From 9a7c68c0348343004315c43987fd00c688e405d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:29 +0000
Subject: [PATCH 06/62] fix: task-based execution of no outputs terminates
 instead of looping forever

---
 hamilton/execution/grouping.py | 2 ++
 hamilton/execution/state.py    | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index 3eefffc..3921f41 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -285,6 +285,8 @@ class GroupNodesAllAsOne(GroupingStrategy):
     """Groups nodes all into one block. TODO -- add validation."""
 
     def group_nodes(self, nodes: List[node.Node]):
+        if len(nodes) == 0:
+            return []
         return [
             NodeGroup(
                 base_id="root",
diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index b13931a..c9875f9 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -437,6 +437,9 @@ class ExecutionState:
         """
         if not self.is_initialized:
             return GraphState.UNINITIALIZED
+        elif len(self.base_task_pool) == 0:
+            # Nothing to execute
+            return GraphState.SUCCESSFUL
         elif len(self.task_states) == 0 or all(
             [state == TaskState.INITIALIZED for state in self.task_states.values()]
         ):
-- 
2.43.0


From de8b65b16f16a1f01a38a734f6273074ae3dc3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:29 +0000
Subject: [PATCH 07/62] fix: finalize the executors already started when a
 later one fails to initialize

---
 hamilton/execution/executors.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hamilton/execution/executors.py b/hamilton/execution/executors.py
index 7bfb500..4bfd664 100644
--- a/hamilton/execution/executors.py
+++ b/hamilton/execution/executors.py
@@ -304,9 +304,19 @@ class ExecutionManager(abc.ABC):
         self.executors = executors
 
     def init(self):
-        """Initializes each of the executors."""
-        for executor in self.executors:
-            executor.init()
+        """Initializes each of the executors.
+
+        If one of them fails to initialize, the ones initialized before it are finalized.
+        """
+        initialized = []
+        try:
+            for executor in self.executors:
+                executor.init()
+                initialized.append(executor)
+        except Exception:
+            for executor in initialized:
+                executor.finalize()
+            raise
 
     def finalize(self):
         """Finalizes each of the executors."""
-- 
2.43.0


From 38cfe0efb348d25d1f97bbc5dde3c8c0cbef00a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:10 +0000
Subject: [PATCH 08/62] fix: a fan-out whose body or collector uses what
 another fan-out collected

The search for the block between Parallelizable and Collect went through the other block's Collect up
to that block's Parallelizable, so the nodes were attributed to the wrong block and never ran.
---
 hamilton/execution/graph_functions.py | 4 ++++
 hamilton/execution/grouping.py        | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index b3379cd..ae99695 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -334,6 +334,7 @@ def execute_lifecycle_for_node(
 def nodes_between(
     end_node: node.Node,
     search_condition: lambda node_: bool,
+    stop_condition: lambda node_: bool = lambda node_: False,
 ) -> Tuple[Optional[node.Node], List[node.Node]]:
     """Utility function to search backwards from an end node to a start node.
     This returns all nodes for which both of the following conditions are met:
@@ -349,6 +350,7 @@ def nodes_between(
 
     :param end_node: Node to trace back from
     :param search_condition: Condition to stop the search for ancestors
+    :param stop_condition: Nodes meeting this are not included, nor searched through
     :return: A tuple of [start_node, between], where start_node is None
     if there is no path (and between will be empty).
     """
@@ -363,6 +365,8 @@ def nodes_between(
             nonlocal search_node
             search_node = node_
             return True
+        if stop_condition(node_):
+            return False
         if node_ in visited:
             # if we've already seen it, we want to include it
             return node_ in out
diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index 3921f41..b91f3cd 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -188,7 +188,11 @@ class GroupByRepeatableBlocks(GroupingStrategy):
         def is_expander(node_: node.Node) -> bool:
             return node_.node_role in [NodeType.EXPAND]
 
-        return graph_functions.nodes_between(collect_node, is_expander)
+        def is_collector(node_: node.Node) -> bool:
+            return node_.node_role == NodeType.COLLECT
+
+        # What another block collected lies outside of this block
+        return graph_functions.nodes_between(collect_node, is_expander, is_collector)
 
     def group_nodes(self, nodes: List[node.Node]) -> List[NodeGroup]:
         """Groups nodes into blocks. This works as follows:
-- 
2.43.0


From c5b74f6a18991a14ab5f51aa55dfa266945bac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:46 +0000
Subject: [PATCH 09/62] fix: parameterized coroutine functions are awaited

@parameterize (and @inject) wrapped a coroutine function in an ordinary one, so the async driver took it
for an ordinary function and passed the un-awaited coroutine on as the node's result.
---
 hamilton/function_modifiers/expanders.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 1b5e726..707588f 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -230,6 +230,12 @@ class parameterize(base.NodeExpander):
                     # now the error will be clear enough
                 return node_.callable(*args, **new_kwargs)
 
+            async def async_replacement_function(
+                *args, _replacement_function=replacement_function, **kwargs
+            ):
+                return await _replacement_function(*args, **kwargs)
+
+            is_async = inspect.iscoroutinefunction(node_.callable)
             new_input_types = {}
             grouped_dependencies = {
                 **grouped_list_dependencies,
@@ -270,7 +276,7 @@ class parameterize(base.NodeExpander):
                     name=output_node,
                     doc_string=docstring,  # TODO -- change docstring
                     callabl=functools.partial(
-                        replacement_function,
+                        async_replacement_function if is_async else replacement_function,
                         **{parameter: val.value for parameter, val in literal_dependencies.items()},
                     ),
                     input_types=new_input_types,
-- 
2.43.0


From 2f4877776419395d18d22254ca47b47d8242a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 10/62] fix: the async driver keeps adapters in the order they
 were registered

---
 hamilton/async_driver.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index f6bfacc..e824630 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -171,14 +171,13 @@ def separate_sync_from_async(
     adapter_set = lifecycle_base.LifecycleAdapterSet(*adapters)
     # this is using internal(ish) fields (.sync_hooks/.async_hooks) -- we should probably expose it
     # For now this is OK
-    # Note those are dict[hook_name, list[hook]], so we have to flatten
+    # Note those are dict[hook_name, list[hook]], so we have to flatten -- we go by adapter (rather than
+    # by hook) so the adapters keep the order in which they were registered
+    sync_ids = {id(a) for hook_adapters in adapter_set.sync_hooks.values() for a in hook_adapters}
+    async_ids = {id(a) for hook_adapters in adapter_set.async_hooks.values() for a in hook_adapters}
     return (
-        [sync_adapter for adapters in adapter_set.sync_hooks.values() for sync_adapter in adapters],
-        [
-            async_adapter
-            for adapters in adapter_set.async_hooks.values()
-            for async_adapter in adapters
-        ],
+        [adapter for adapter in adapter_set.adapters if id(adapter) in sync_ids],
+        [adapter for adapter in adapter_set.adapters if id(adapter) in async_ids],
     )
 
 
-- 
2.43.0


From 0b678fdc0ade094c8fe103a54ccbb27a5a196864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 11/62] fix: a materialize() call that fails while attaching
 materializers raises that error

---
 hamilton/driver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 2f64d21..1e2cea1 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1643,6 +1643,8 @@ class Driver:
         final_vars = self._create_final_vars(additional_vars)
         # This is so the finally logging statement does not accidentally die
         materializer_vars = []
+        # Whether the graph execution hooks know about this run -- if we fail prior to that there is nothing to close
+        run_announced = False
         try:
             materializer_factories, extractor_factories = self._process_materializers(materializers)
             if len(materializer_factories) == len(final_vars) == 0:
@@ -1666,6 +1668,7 @@ class Driver:
             # Note we will not run the loaders if they're not upstream of the
             # materializers or additional_vars
             materializer_vars = [m.id for m in materializer_factories]
+            run_announced = True
             if self.adapter.does_hook("pre_graph_execute", is_async=False):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "pre_graph_execute",
@@ -1699,7 +1702,7 @@ class Driver:
             error_execution = e
             raise e
         finally:
-            if self.adapter.does_hook("post_graph_execute", is_async=False):
+            if run_announced and self.adapter.does_hook("post_graph_execute", is_async=False):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "post_graph_execute",
                     run_id=run_id,
-- 
2.43.0


From 5a0cbb294911e16e03a6e26bdc0a284796bb7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 12/62] fix: notify every registered adapter, including ones
 that compare equal to another

---
 hamilton/lifecycle/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/lifecycle/base.py b/hamilton/lifecycle/base.py
index 12ea36b..28797d2 100644
--- a/hamilton/lifecycle/base.py
+++ b/hamilton/lifecycle/base.py
@@ -804,11 +804,11 @@ class LifecycleAdapterSet:
             for cls in inspect.getmro(adapter.__class__):
                 sync_hook = getattr(cls, SYNC_HOOK, None)
                 if sync_hook is not None:
-                    if adapter not in sync_hooks[sync_hook]:
+                    if not any(other is adapter for other in sync_hooks[sync_hook]):
                         sync_hooks[sync_hook].append(adapter)
                 async_hook = getattr(cls, ASYNC_HOOK, None)
                 if async_hook is not None:
-                    if adapter not in async_hooks[async_hook]:
+                    if not any(other is adapter for other in async_hooks[async_hook]):
                         async_hooks[async_hook].append(adapter)
         return (
             {hook: adapters for hook, adapters in sync_hooks.items()},
-- 
2.43.0


From 9ba65a80a40f78a17f92947a62aace154b419eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 13/62] fix: the version of a node covers all the functions it
 stems from, including steps of pipes and mutations

---
 hamilton/function_modifiers/macros.py | 7 ++++++-
 hamilton/graph_types.py               | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index ae877db..d8b5764 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1394,7 +1394,12 @@ def chain_transforms(
                 f"with{('_' if not fn_name.startswith('_') else '') + fn_name}{postfix}",
             )
             node_namespace = applicable.resolve_namespace(fn.__name__)
-            raw_node = raw_node.copy_with(namespace=node_namespace, name=node_name)
+            # the decorated function gets added later on, the step's own function comes first
+            raw_node = raw_node.copy_with(
+                namespace=node_namespace,
+                name=node_name,
+                originating_functions=(applicable.fn,),
+            )
             # TODO -- validate that the first parameter is the right type/all the same
             fn_count[fn_name] += 1
             upstream_inputs, literal_inputs = applicable.bind_function_args(target_arg)
diff --git a/hamilton/graph_types.py b/hamilton/graph_types.py
index f6f060f..2e6bb20 100644
--- a/hamilton/graph_types.py
+++ b/hamilton/graph_types.py
@@ -173,8 +173,12 @@ class HamiltonNode:
                 return self.name
             return None  # this shouldn't happen often.
         try:
-            # return hash of first function. It could be that others are Hamilton framework code.
-            return hash_source_code(self.originating_functions[0], strip=True)
+            versions = [hash_source_code(fn, strip=True) for fn in self.originating_functions]
+            if len(versions) == 1:
+                return versions[0]
+            # nodes that stem from multiple functions (E.G. the steps of a pipe, nodes in a subdag)
+            # depend on the code of all of them
+            return hashlib.sha256(str(versions).encode()).hexdigest()
         except OSError:  # TODO -- ensure we can get the node hash in a databricks environment when using jupyter magic
             logger.warning(
                 f"Failed to hash source code for node {self.name}. Certain environments (such as databricks) do not allow it."
-- 
2.43.0


From 1a8438d57d186525b3a7a07d1edf8e78783b82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:05 +0000
Subject: [PATCH 14/62] fix: an incomplete or unreadable result file no longer
 poisons the cache

---
 hamilton/caching/stores/file.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 9721a72..352762b 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -1,5 +1,7 @@
 import inspect
+import os
 import shutil
+import uuid
 from pathlib import Path
 from typing import Any, Optional
 
@@ -10,7 +12,7 @@ except ImportError:
 
 from hamilton.io.data_adapters import DataLoader, DataSaver
 
-from .base import ResultStore, StoredResult
+from .base import ResultRetrievalError, ResultStore, StoredResult
 
 
 class FileResultStore(ResultStore):
@@ -29,15 +31,25 @@ class FileResultStore(ResultStore):
 
     @staticmethod
     def _write_result(file_path: Path, stored_result: StoredResult) -> None:
-        file_path.write_bytes(stored_result.save())
+        # write to a temporary file first, then move it in place. This way, other readers and
+        # later runs (if we get interrupted) never see a partially written result
+        temporary_path = file_path.with_name(f"{file_path.name}.{uuid.uuid4().hex}.tmp")
+        try:
+            temporary_path.write_bytes(stored_result.save())
+            os.replace(temporary_path, file_path)
+        finally:
+            temporary_path.unlink(missing_ok=True)
 
     @staticmethod
     def _load_result_from_path(path: Path) -> Optional[StoredResult]:
         try:
             data = path.read_bytes()
-            return StoredResult.load(data)
         except FileNotFoundError:
             return None
+        try:
+            return StoredResult.load(data)
+        except Exception as e:
+            raise ResultRetrievalError(f"Failed to load the result stored at: {path}") from e
 
     def _path_from_data_version(self, data_version: str) -> Path:
         return self.path.joinpath(data_version)
-- 
2.43.0


From c5282d22fafc86dc214230592b8c5a59a0fb047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:55 +0000
Subject: [PATCH 15/62] fix: setting a cache key again updates its data version
 in the SQLite metadata store

---
 hamilton/caching/stores/sqlite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 1e43484..8ba99b2 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -147,9 +147,10 @@ class SQLiteMetadataStore(MetadataStore):
         cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
         cur.execute(
             """\
-            INSERT OR IGNORE INTO cache_metadata (
+            INSERT INTO cache_metadata (
                 cache_key, node_name, code_version, data_version
             ) VALUES (?, ?, ?, ?)
+            ON CONFLICT(cache_key) DO UPDATE SET data_version = excluded.data_version
             """,
             (cache_key, node_name, code_version, data_version),
         )
-- 
2.43.0


From 83f4f746a2ea99389cb4901d722ccf9c082b5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 16/62] fix: the SQLite metadata store remains usable after
 delete_all()

---
 hamilton/caching/stores/sqlite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 8ba99b2..7f03e88 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -183,13 +183,14 @@ class SQLiteMetadataStore(MetadataStore):
         self.connection.commit()
 
     def delete_all(self) -> None:
-        """Delete all existing tables from the database"""
+        """Delete all existing tables from the database, and set up empty ones"""
         cur = self.connection.cursor()
 
         for table_name in ["run_ids", "history", "cache_metadata"]:
             cur.execute(f"DROP TABLE IF EXISTS {table_name};")
 
         self.connection.commit()
+        self._create_tables_if_not_exists()
 
     def exists(self, cache_key: str) -> bool:
         """boolean check if a ``data_version`` is found for ``cache_key``
-- 
2.43.0


From 46a43806e56685e0b5b3e428b4a5a93ccc766218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 17/62] fix: deleting all stored results keeps the metadata
 store living in the same directory

---
 hamilton/caching/stores/file.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 352762b..d13f9ad 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -125,8 +125,15 @@ class FileResultStore(ResultStore):
 
     @override
     def delete_all(self) -> None:
-        shutil.rmtree(self.path)
         self.path.mkdir(exist_ok=True)
+        for path in self.path.iterdir():
+            # by default, the metadata store lives in the same directory. It isn't ours to delete
+            if path.name.startswith("metadata_store.db") or path.name == "cache_logs.jsonl":
+                continue
+            if path.is_dir():
+                shutil.rmtree(path)
+            else:
+                path.unlink(missing_ok=True)
 
     def delete_expired(self) -> None:
         for file_path in self.path.iterdir():
-- 
2.43.0


From 4aaa10143faf52daa977916a1579cf78e1415043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 18/62] fix: in-memory stores handle deleted and ignored
 entries like the persistent ones

---
 hamilton/caching/stores/memory.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 37eee89..a935e4a 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -48,12 +48,14 @@ class InMemoryMetadataStore(MetadataStore):
     @override
     def delete(self, cache_key: str) -> None:
         """Delete the ``data_version`` for ``cache_key``."""
-        del self._data_versions[cache_key]
+        self._data_versions.pop(cache_key, None)
 
     @override
     def delete_all(self) -> None:
         """Delete all stored metadata."""
         self._data_versions.clear()
+        self._cache_keys_by_run.clear()
+        self._run_ids.clear()
 
     def persist_to(self, metadata_store: Optional[MetadataStore] = None) -> None:
         """Persist in-memory metadata using another MetadataStore implementation.
@@ -90,6 +92,9 @@ class InMemoryMetadataStore(MetadataStore):
 
         for run_id, cache_keys in self._cache_keys_by_run.items():
             for cache_key in cache_keys:
+                # skip nodes that have no cache key (ignored nodes) or whose metadata was deleted
+                if cache_key is None or cache_key not in self._data_versions:
+                    continue
                 data_version = self._data_versions[cache_key]
                 metadata_store.set(
                     cache_key=cache_key,
@@ -150,6 +155,9 @@ class InMemoryMetadataStore(MetadataStore):
 
         nodes_metadata = []
         for cache_key in self._cache_keys_by_run[run_id]:
+            # skip nodes that have no cache key (ignored nodes) or whose metadata was deleted
+            if cache_key is None or cache_key not in self._data_versions:
+                continue
             decoded_key = decode_key(cache_key)
             nodes_metadata.append(
                 dict(
@@ -187,7 +195,7 @@ class InMemoryResultStore(ResultStore):
 
     @override
     def delete(self, data_version: str) -> None:
-        del self._results[data_version]
+        self._results.pop(data_version, None)
 
     @override
     def delete_all(self) -> None:
@@ -271,6 +279,8 @@ class InMemoryResultStore(ResultStore):
                     data_versions_to_retrieve.add(node_metadata["data_version"])
 
         for data_version in data_versions_to_retrieve:
+            if not result_store.exists(data_version):
+                continue
             # TODO disambiguate "result is None" from the sentinel value when `data_version`
             # is not found in `result_store`.
             result = result_store.get(data_version)
-- 
2.43.0


From 094b8d5bbcc6ae364f794693a269a9e527269bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 19/62] fix: caching returns the whole value of a data loader
 that loads a tuple

---
 hamilton/caching/adapter.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 59fd181..3e3d98e 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1268,13 +1268,6 @@ class HamiltonCacheAdapter(
             ):
                 cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
 
-                # nodes collected in `._data_loaders` return tuples of (result, metadata)
-                # where metadata often includes a timestamp. To ensure we provide a consistent
-                # `data_version` / hash, we only hash the result part of the materializer return
-                # value and discard the metadata.
-                if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                    result = result[0]
-
                 data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
                 # nodes collected in `._data_savers` return a dictionary of metadata
@@ -1355,13 +1348,6 @@ class HamiltonCacheAdapter(
                 task_id=task_id,
             )
 
-            # nodes collected in `._data_loaders` return tuples of (result, metadata)
-            # where metadata often includes a timestamp. To ensure we provide a consistent
-            # `data_version` / hash, we only hash the result part of the materializer return
-            # value and discard the metadata.
-            if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                result = result[0]
-
             data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
             # nodes collected in `._data_savers` return a dictionary of metadata
-- 
2.43.0


From 580508577a4c8852d84906df45820c4fed686bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:46 +0000
Subject: [PATCH 20/62] fix: the cache key of a collected value depends on the
 order of the items

---
 hamilton/caching/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 3e3d98e..afa8a95 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1196,7 +1196,7 @@ class HamiltonCacheAdapter(
             if dep_name == collected_name:
                 # the collected value should be hashed based on the items, not the container
                 items_data_versions = [self.version_data(item, run_id=run_id) for item in dep_value]
-                dep_data_version = fingerprinting.hash_value(sorted(items_data_versions))
+                dep_data_version = fingerprinting.hash_value(items_data_versions)
 
             elif dep_role == NodeRoleInTaskExecution.EXPAND:
                 # if the dependency is `EXPAND`, the kwarg received is a single item yielded by the iterator
-- 
2.43.0


From b3184f1b54fc4ba05d3b7cfa12348650f6c50b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:21 +0000
Subject: [PATCH 21/62] fix: caching works for nodes whose dependencies were
 computed by another task of a grouping

---
 hamilton/caching/adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index afa8a95..8ea7a92 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1211,6 +1211,9 @@ class HamiltonCacheAdapter(
                     dep_data_version = self.version_data(dep_value, run_id=run_id)
                 elif isinstance(tasks_data_versions, dict):
                     dep_data_version = tasks_data_versions.get(task_id)
+                    if dep_data_version is None:
+                        # the dependency was computed by another task
+                        dep_data_version = self.version_data(dep_value, run_id=run_id)
                 else:
                     dep_data_version = tasks_data_versions
 
-- 
2.43.0


From 6175f2918b3c2899c0309e94344ae31f74f9e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 22/62] fix: nodes with a cache format work with result stores
 that don't write files

---
 hamilton/caching/adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 8ea7a92..6180a97 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1420,7 +1420,8 @@ class HamiltonCacheAdapter(
                 .nodes[node_name]
                 .tags.get(cache_decorator.FORMAT_KEY, SENTINEL)
             )
-            if cache_format is not SENTINEL:
+            # stores that don't write files (e.g., in-memory) have no use for a file format
+            if cache_format is not SENTINEL and isinstance(self.result_store, FileResultStore):
                 saver_cls, loader_cls = search_data_adapter_registry(
                     name=cache_format, type_=type(result)
                 )  # type: ignore
-- 
2.43.0


From fa28768894904095a3307f288d4dfc66bf587a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:46 +0000
Subject: [PATCH 23/62] fix: a run or node left through KeyboardInterrupt or
 SystemExit is not reported as successful

---
 hamilton/async_driver.py              | 4 ++--
 hamilton/driver.py                    | 6 +++---
 hamilton/execution/executors.py       | 2 +-
 hamilton/execution/graph_functions.py | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index e824630..30d5a38 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -121,7 +121,7 @@ class AsyncGraphAdapter(lifecycle_base.BaseDoNodeExecute, lifecycle.ResultBuilde
                 result = (
                     await fn(**fn_kwargs) if asyncio.iscoroutinefunction(fn) else fn(**fn_kwargs)
                 )
-            except Exception as e:
+            except BaseException as e:
                 success = False
                 error = e
                 step = "[pre-node-execute:async]" if pre_node_execute_errored else ""
@@ -319,7 +319,7 @@ class AsyncDriver(driver.Driver):
             }
             results = await await_dict_of_tasks(task_dict)
             success = True
-        except Exception as e:
+        except BaseException as e:
             error = e
             success = False
             raise e
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 1e2cea1..37b1443 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -629,7 +629,7 @@ class Driver:
                     "do_build_result", outputs=outputs
                 )
             # Otherwise just return a dict
-        except Exception as e:
+        except BaseException as e:
             run_successful = False
             logger.error(SLACK_ERROR_MESSAGE)
             error_execution = e
@@ -767,7 +767,7 @@ class Driver:
                 run_id,
             )
             success = True
-        except Exception as e:
+        except BaseException as e:
             error = e
             success = False
             raise e
@@ -1695,7 +1695,7 @@ class Driver:
             materialization_output = {key: raw_results[key] for key in materializer_vars}
             raw_results_output = {key: raw_results[key] for key in final_vars}
             outputs = materialization_output, raw_results_output
-        except Exception as e:
+        except BaseException as e:
             run_successful = False
             logger.error(SLACK_ERROR_MESSAGE)
             error_telemetry = telemetry.sanitize_error(*sys.exc_info())
diff --git a/hamilton/execution/executors.py b/hamilton/execution/executors.py
index 4bfd664..513e3e2 100644
--- a/hamilton/execution/executors.py
+++ b/hamilton/execution/executors.py
@@ -121,7 +121,7 @@ def base_execute_task(task: TaskImplementation) -> Dict[str, Any]:
             run_id=task.run_id,
             task_id=task.task_id,
         )
-    except Exception as e:
+    except BaseException as e:
         logger.exception(task.task_id)
         error = e
         success = False
diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index ae99695..ca57220 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -303,7 +303,7 @@ def execute_lifecycle_for_node(
 
         return result
 
-    except Exception as e:
+    except BaseException as e:
         success = False
         error = e
         step = "[pre-node-execute]" if pre_node_execute_errored else ""
-- 
2.43.0


From 60612bdeba322c6c4bc0d559179956216497cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:45 +0000
Subject: [PATCH 24/62] fix: the name of a @config function does not depend on
 how often it was resolved before

---
 hamilton/function_modifiers/configuration.py | 6 +++++-
 hamilton/graph_utils.py                      | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hamilton/function_modifiers/configuration.py b/hamilton/function_modifiers/configuration.py
index ae62c74..8e209a5 100644
--- a/hamilton/function_modifiers/configuration.py
+++ b/hamilton/function_modifiers/configuration.py
@@ -170,6 +170,9 @@ class config(base.NodeResolver):
     def _get_function_name(self, fn: Callable) -> str:
         if self.target_name is not None:
             return self.target_name
+        if fn.__name__ != getattr(fn, "__original_name__", fn.__name__):
+            # named by another @config decorator, or by an earlier resolution: the suffix is gone
+            return fn.__name__
         return base.sanitize_function_name(fn.__name__)
 
     def resolve(self, fn, config: Dict[str, Any]) -> Callable:
@@ -179,7 +182,8 @@ class config(base.NodeResolver):
         fn.__config_decorated__ = (
             self._config_used if self._config_used is not None else ["__UNKNOWN__"]
         )
-        fn.__original_name__ = fn.__name__
+        if not hasattr(fn, "__original_name__"):
+            fn.__original_name__ = fn.__name__
         fn.__name__ = self._get_function_name(fn)  # TODO -- copy function to not mutate it
         return fn
 
diff --git a/hamilton/graph_utils.py b/hamilton/graph_utils.py
index 8c3695b..c634d33 100644
--- a/hamilton/graph_utils.py
+++ b/hamilton/graph_utils.py
@@ -17,7 +17,8 @@ def find_functions(function_module: ModuleType) -> List[Tuple[str, Callable]]:
     def valid_fn(fn):
         return (
             inspect.isfunction(fn)
-            and not fn.__name__.startswith("_")
+            # resolving @config renames functions, what counts is the name they were defined with
+            and not getattr(fn, "__original_name__", fn.__name__).startswith("_")
             and is_submodule(inspect.getmodule(fn), function_module)
         )
 
-- 
2.43.0


From 9bb4c1ae64d2b9369b5f73cf2bb36b9616ce4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:14 +0000
Subject: [PATCH 25/62] fix: a parameterized parameter with a default keeps it
 when its source is not supplied

---
 hamilton/function_modifiers/expanders.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 707588f..05481c3 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -171,6 +171,11 @@ class parameterize(base.NodeExpander):
                 ParametrizedDependencySource.GROUPED_DICT
             ]
 
+            is_optional = {
+                param: dependency_type == node.DependencyType.OPTIONAL
+                for param, (_, dependency_type) in node_.input_types.items()
+            }
+
             def replacement_function(
                 *args,
                 upstream_dependencies=upstream_dependencies,
@@ -195,7 +200,10 @@ class parameterize(base.NodeExpander):
                 for node_input in former_inputs:
                     if node_input in upstream_dependencies:
                         # If the node is specified by `source`, then we get the value from the kwargs
-                        new_kwargs[node_input] = kwargs[upstream_dependencies[node_input].source]
+                        # (an optional dependency that is not supplied leaves the default value)
+                        dependency_name = upstream_dependencies[node_input].source
+                        if dependency_name in kwargs or not is_optional[node_input]:
+                            new_kwargs[node_input] = kwargs[dependency_name]
                     elif node_input in literal_dependencies:
                         # If the node is specified by `value`, then we get the literal value (no need for kwargs)
                         new_kwargs[node_input] = literal_dependencies[node_input].value
-- 
2.43.0


From e1b75072d33052b76be297f988a4854614a62507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:26 +0000
Subject: [PATCH 26/62] fix: extract_columns fills missing columns that have a
 doc string, and those of immutable dataframes

---
 hamilton/function_modifiers/expanders.py | 15 +++++++++++----
 hamilton/plugins/polars_extensions.py    |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 05481c3..5af2634 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -639,15 +639,20 @@ class extract_columns(base.SingleNodeNodeTransformer):
         fn = node_.callable
         base_doc = node_.documentation
 
+        # columns are either names or (name, doc string) tuples
+        column_names = [col[0] if isinstance(col, Tuple) else col for col in self.columns]
+
         # if fn is an async function
         if inspect.iscoroutinefunction(fn):
 
             async def df_generator(*args, **kwargs) -> Any:
                 df_generated = await fn(*args, **kwargs)
                 if self.fill_with is not None:
-                    for col in self.columns:
+                    for col in column_names:
                         if col not in df_generated:
-                            registry.fill_with_scalar(df_generated, col, self.fill_with)
+                            df_generated = registry.fill_with_scalar(
+                                df_generated, col, self.fill_with
+                            )
                             assert col in df_generated
                 return df_generated
 
@@ -656,9 +661,11 @@ class extract_columns(base.SingleNodeNodeTransformer):
             def df_generator(*args, **kwargs) -> Any:
                 df_generated = fn(*args, **kwargs)
                 if self.fill_with is not None:
-                    for col in self.columns:
+                    for col in column_names:
                         if col not in df_generated:
-                            registry.fill_with_scalar(df_generated, col, self.fill_with)
+                            df_generated = registry.fill_with_scalar(
+                                df_generated, col, self.fill_with
+                            )
                             assert col in df_generated
                 return df_generated
 
diff --git a/hamilton/plugins/polars_extensions.py b/hamilton/plugins/polars_extensions.py
index 2c8b9d5..9a7671a 100644
--- a/hamilton/plugins/polars_extensions.py
+++ b/hamilton/plugins/polars_extensions.py
@@ -47,8 +47,8 @@ def get_column_polars(df: pl.DataFrame, column_name: str) -> pl.Series:
 @registry.fill_with_scalar.register(pl.DataFrame)
 def fill_with_scalar_polars(df: pl.DataFrame, column_name: str, scalar_value: Any) -> pl.DataFrame:
     if not isinstance(scalar_value, pl.Series):
-        scalar_value = [scalar_value]
-    return df.with_columns(pl.Series(name=column_name, values=scalar_value))
+        scalar_value = pl.lit(scalar_value)
+    return df.with_columns(scalar_value.alias(column_name))
 
 
 register_types()
-- 
2.43.0


From 67584268e814b05fa81755804a94d3b534831747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:26 +0000
Subject: [PATCH 27/62] fix: parameterize_extract_columns honours
 reassign_columns=False

---
 hamilton/function_modifiers/expanders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 5af2634..2184725 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -948,8 +948,8 @@ class parameterize_extract_columns(base.NodeExpander):
                 df_out.columns = _output_columns
                 return df_out
 
-            new_node = node_.copy_with(callabl=wrapper_fn)
             fn_to_call = wrapper_fn if self.reassign_columns else fn
+            new_node = node_.copy_with(callabl=fn_to_call)
             # We have to rename the underlying function so that we do not
             # get naming collisions. Using __ is cleaner than using a uuid
             # as it is easier to read/manage and naturally maeks sense.
-- 
2.43.0


From ef69c1bdc762cc0a10a86dc8b5c022e01395ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:01 +0000
Subject: [PATCH 28/62] fix: @does maps arguments independently of the order of
 the mapping

---
 hamilton/function_modifiers/macros.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index d8b5764..7370d01 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -109,10 +109,8 @@ class does(base.NodeCreator):
         :param argument_mapping: Mapping of those arguments to a replacing function's arguments.
         :return: The new kwargs for the replacing function's arguments.
         """
-        output = {**kwargs}
+        output = {arg: val for arg, val in kwargs.items() if arg not in argument_mapping.values()}
         for arg_mapped_to, original_arg in argument_mapping.items():
-            if original_arg in kwargs and arg_mapped_to not in argument_mapping.values():
-                del output[original_arg]
             # Note that if it is not there it could be a **kwarg
             output[arg_mapped_to] = kwargs[original_arg]
         return output
-- 
2.43.0


From 78a04780f79bcdf4097bf005956538759bd62c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 29/62] fix: @pipe_output and @mutate work on async functions

---
 hamilton/function_modifiers/macros.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index 7370d01..0940edd 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1300,17 +1300,10 @@ class pipe_output(base.NodeTransformer):
         # We pick a reserved prefix that ovoids clashes with user defined functions / nodes
         original_node = node_.copy_with(name=f"{node_.name}.raw")
 
-        is_async = inspect.iscoroutinefunction(fn)  # determine if its async
-
         def __identity(foo: Any) -> Any:
             return foo
 
-        async def async_function(**kwargs):
-            return await __identity(**kwargs)
-
-        fn_to_use = async_function if is_async else __identity
-
-        transforms = transforms + (step(fn_to_use).named(fn.__name__),)
+        transforms = transforms + (step(__identity).named(fn.__name__),)
         nodes, _ = chain_transforms(
             target_arg=original_node.name,
             transforms=transforms,
-- 
2.43.0


From 9b79ea892dd443ad6e22f29fe9c42cf207f5b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 30/62] fix: one apply_to(...) can be used by several @mutate
 functions

---
 hamilton/function_modifiers/macros.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index 0940edd..d831da7 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1568,12 +1568,17 @@ class mutate:
     def _create_step(self, mutating_fn: Callable, remote_applicable_builder: Applicable):
         """Adds the correct function for the applicable and resolves kwargs"""
 
-        if not remote_applicable_builder.kwargs:
-            remote_applicable_builder.kwargs = self.mutating_function_kwargs
-
-        remote_applicable_builder.fn = mutating_fn
-
-        return remote_applicable_builder
+        # A new applicable, as the given one may be used for several mutating functions
+        return Applicable(
+            fn=mutating_fn,
+            args=remote_applicable_builder.args,
+            kwargs=remote_applicable_builder.kwargs or self.mutating_function_kwargs,
+            target_fn=remote_applicable_builder.target_fn,
+            _resolvers=remote_applicable_builder.resolvers,
+            _name=remote_applicable_builder.name,
+            _namespace=remote_applicable_builder.namespace,
+            _target=remote_applicable_builder.target,
+        )
 
     def __call__(self, mutating_fn: Callable):
         """Adds to an existing pipe_output or creates a new pipe_output.
-- 
2.43.0


From d85c8f605891c851434db4ba2d6c7d4d29e50ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 31/62] fix: @pipe_input(on_input=...) naming no parameter is
 rejected instead of piping the first parameter

---
 hamilton/function_modifiers/macros.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index d831da7..0b03c50 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -958,6 +958,13 @@ class pipe_input(base.NodeInjector):
             # if not, skip that, pointing to the previous
             # Create a node along the way
 
+        if not mapping and self.target != [None]:
+            raise base.InvalidDecoratorException(
+                f"Function: {fn.__name__} with parameters {param_names} does not have the "
+                f"dependency {self.target[0]} that @pipe_input is applied to. @pipe_input requires "
+                f"the parameter names to match the function parameters. Thus it might not be "
+                f"compatible with some other decorators."
+            )
         if not mapping:
             # This reverts back to legacy chaining through first parameter and checks first parameter
             first_parameter = param_names[0]
-- 
2.43.0


From 0c6da548c9abab41ecbc1a0efe4fa4d4ee3a81f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 32/62] fix: an upstream input of a subdag that only its final
 function uses is wired

---
 hamilton/function_modifiers/recursive.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hamilton/function_modifiers/recursive.py b/hamilton/function_modifiers/recursive.py
index a330714..238d101 100644
--- a/hamilton/function_modifiers/recursive.py
+++ b/hamilton/function_modifiers/recursive.py
@@ -430,10 +430,11 @@ class subdag(base.NodeCreator):
         final_node_name = self._derive_name(fn)
         # Rename them all to have the right namespace
         nodes = self.add_namespace(nodes, namespace, self.inputs, self.config)
+        # The final node that does the translation
+        final_node = self.add_final_node(fn, final_node_name, namespace)
         # Create any static input nodes we need to translate
-        nodes += self._create_additional_static_nodes(nodes, namespace)
-        # Add the final node that does the translation
-        nodes += [self.add_final_node(fn, final_node_name, namespace)]
+        nodes += self._create_additional_static_nodes([final_node, *nodes], namespace)
+        nodes += [final_node]
         return nodes
 
     def _validate_parameterization(self):
-- 
2.43.0


From a36331a59f426805372028dcb40b8ea607a6b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:12 +0000
Subject: [PATCH 33/62] fix: inputs of a piped step that share one source, or a
 literal named like the piped input, are kept apart

---
 hamilton/node.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hamilton/node.py b/hamilton/node.py
index 5755b0e..c0bdf0a 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -363,18 +363,25 @@ class Node(object):
         is_async = inspect.iscoroutinefunction(self.callable)  # determine if its async
 
         def new_callable(**kwargs) -> Any:
-            reverse_input_names = {v: k for k, v in input_names.items()}
-            kwargs = {**kwargs, **input_values}
-            return self.callable(**{reverse_input_names.get(k, k): v for k, v in kwargs.items()})
+            # several inputs can be assigned the same name
+            new_names = {k: input_names.get(k, k) for k in self.input_types}
+            reassigned = {k: kwargs[name] for k, name in new_names.items() if name in kwargs}
+            others = {k: v for k, v in kwargs.items() if k not in new_names.values()}
+            return self.callable(**{**others, **reassigned, **input_values})
 
         async def async_function(**kwargs):
             return await new_callable(**kwargs)
 
         fn_to_use = async_function if is_async else new_callable
 
-        new_input_types = {
-            input_names.get(k, k): v for k, v in self.input_types.items() if k not in input_values
-        }
+        new_input_types = {}
+        for k, v in self.input_types.items():
+            new_name = input_names.get(k, k)
+            if k in input_values:
+                continue
+            if new_name in new_input_types and v[1] == DependencyType.OPTIONAL:
+                continue  # required if any of the inputs with that name is
+            new_input_types[new_name] = v
         # out = self.copy_with(callabl=new_callable, input_types=new_input_types)
         out = self.copy_with(callabl=fn_to_use, input_types=new_input_types)
         return out
-- 
2.43.0


From 57393a5d06dc1734c04f18bd7883f9fb7e99ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:07 +0000
Subject: [PATCH 34/62] fix: with_columns without select does not carry the
 columns of one build over to the next

---
 hamilton/plugins/h_pandas.py           | 9 +++++----
 hamilton/plugins/h_polars.py           | 9 +++++----
 hamilton/plugins/h_polars_lazyframe.py | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/hamilton/plugins/h_pandas.py b/hamilton/plugins/h_pandas.py
index bcbc2e2..d1f5626 100644
--- a/hamilton/plugins/h_pandas.py
+++ b/hamilton/plugins/h_pandas.py
@@ -201,8 +201,9 @@ class with_columns(with_columns_base):
         "Node that adds to / overrides columns for the original dataframe based on selected output."
         # In case no node is selected we append all possible nodes that have a column type matching
         # what the dataframe expects
-        if self.select is None:
-            self.select = [
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -211,13 +212,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.assign(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
diff --git a/hamilton/plugins/h_polars.py b/hamilton/plugins/h_polars.py
index 4ef8609..3578108 100644
--- a/hamilton/plugins/h_polars.py
+++ b/hamilton/plugins/h_polars.py
@@ -250,8 +250,9 @@ class with_columns(with_columns_base):
     ) -> node.Node:
         "Node that adds to / overrides columns for the original dataframe based on selected output."
 
-        if self.select is None:
-            self.select = [
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -260,13 +261,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.with_columns(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
diff --git a/hamilton/plugins/h_polars_lazyframe.py b/hamilton/plugins/h_polars_lazyframe.py
index 00f4326..ae2792b 100644
--- a/hamilton/plugins/h_polars_lazyframe.py
+++ b/hamilton/plugins/h_polars_lazyframe.py
@@ -228,8 +228,9 @@ class with_columns(with_columns_base):
     ) -> node.Node:
         "Node that adds to / overrides columns for the original dataframe based on selected output."
 
-        if self.select is None:
-            self.select = [
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -238,13 +239,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.with_columns(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
-- 
2.43.0


From fb67d042cd0756254a48d2cc5db5cff52764c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:57 +0000
Subject: [PATCH 35/62] fix: functions imported from a module whose name
 contains the given module's name do not become nodes

---
 hamilton/graph_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/graph_utils.py b/hamilton/graph_utils.py
index c634d33..0112c3d 100644
--- a/hamilton/graph_utils.py
+++ b/hamilton/graph_utils.py
@@ -4,7 +4,7 @@ from typing import Callable, List, Tuple
 
 
 def is_submodule(child: ModuleType, parent: ModuleType):
-    return parent.__name__ in child.__name__
+    return child.__name__ == parent.__name__ or child.__name__.startswith(f"{parent.__name__}.")
 
 
 def find_functions(function_module: ModuleType) -> List[Tuple[str, Callable]]:
-- 
2.43.0


From 5afcbc5a3d08f4ade0eb25677ada6ba0deb8bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:52 +0000
Subject: [PATCH 36/62] fix: whether the types requested for an input are
 consistent does not depend on the order of the functions

---
 hamilton/graph.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/hamilton/graph.py b/hamilton/graph.py
index 93ee23e..c002992 100644
--- a/hamilton/graph.py
+++ b/hamilton/graph.py
@@ -114,6 +114,32 @@ def add_dependency(
     required_node.depended_on_by.append(func_node)
 
 
+def _add_inputs_with_tightest_type(nodes: Dict[str, node.Node]):
+    """Adds the inputs of the graph for which one of the requested types satisfies all the functions
+    requesting it. Comparing the types one by one (in `add_dependency`) depends on their order.
+
+    :param nodes: Nodes that form the DAG. This function mutates this object.
+    """
+    requests = {}
+    for n in nodes.values():
+        for param_name, (param_type, _) in n.input_types.items():
+            if param_name not in nodes:
+                requests.setdefault(param_name, []).append((param_type, n))
+    for param_name, requested in requests.items():
+        types = [param_type for param_type, _ in requested]
+        if Any in types:
+            continue
+        for param_type, n in requested:
+            if all(types_match(other_type, param_type) for other_type in types):
+                nodes[param_name] = node.Node(
+                    param_name,
+                    param_type,
+                    node_source=node.NodeType.EXTERNAL,
+                    originating_functions=n.originating_functions,
+                )
+                break
+
+
 def update_dependencies(
     nodes: Dict[str, node.Node],
     adapter: lifecycle_base.LifecycleAdapterSet,
@@ -136,7 +162,9 @@ def update_dependencies(
     # copy without the dependencies to avoid duplicates
     if reset_dependencies:
         nodes = {k: v.copy(include_refs=False) for k, v in nodes.items()}
-    for node_name, n in list(nodes.items()):
+    functions = list(nodes.items())
+    _add_inputs_with_tightest_type(nodes)
+    for node_name, n in functions:
         for param_name, (param_type, _) in n.input_types.items():
             add_dependency(n, node_name, nodes, param_name, param_type, adapter)
     return nodes
-- 
2.43.0


From 821ec906235655a8cd989a8451c766f0d07de994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:22 +0000
Subject: [PATCH 37/62] fix: validate_execution accepts functions and variables
 as outputs, as execute does

---
 hamilton/driver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 37b1443..3d557c6 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1806,7 +1806,9 @@ class Driver:
         :param inputs: Inputs to pass to execution.
         :raise ValueError: if any issues with executino can be detected.
         """
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs or {}, overrides)
+        nodes, user_nodes = self.graph.get_upstream_nodes(
+            self._create_final_vars(final_vars), inputs or {}, overrides
+        )
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         self.graph_executor.validate(list(nodes | user_nodes))
 
-- 
2.43.0


From dfa91cdbb10250e75463e77aff4d5978d044a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:52 +0000
Subject: [PATCH 38/62] fix: saver and loader parameters receive the nodes they
 name, also when names coincide or several share a node

---
 hamilton/function_modifiers/adapters.py | 69 +++++++++++--------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/hamilton/function_modifiers/adapters.py b/hamilton/function_modifiers/adapters.py
index 2f975f4..5e5cd1d 100644
--- a/hamilton/function_modifiers/adapters.py
+++ b/hamilton/function_modifiers/adapters.py
@@ -181,44 +181,40 @@ class LoadFromDecorator(NodeInjector):
         # dependencies is a map from param name -> source name
         # we use this to pass the right arguments to the loader.
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        # we need to invert the dependencies so that we can pass
-        # the right argument to the loader
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def load_data(
             __loader_factory: AdapterFactory = loader_factory,
             __load_type: Type[Type] = load_type,
             __resolved_kwargs=resolved_kwargs,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __optional_params=loader_cls.get_optional_arguments(),  # noqa: B008
             **input_kwargs: Any,
         ) -> Tuple[load_type, Dict[str, Any]]:
-            input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+            # several parameters can come from the same node
+            kwargs = {
+                **__resolved_kwargs,
+                **{
+                    key: input_kwargs[source]
+                    for key, source in __dependencies.items()
+                    if source in input_kwargs
+                },
             }
-            kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
             data_loader = __loader_factory.create_loader(**kwargs)
             return data_loader.load_data(load_type)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
+        # The resolved kwargs are not dependencies, and will be filled out later
         input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in loader_cls.get_required_arguments().items()
+            dependencies[key]: (type_, DependencyType.OPTIONAL)
+            for key, type_ in loader_cls.get_optional_arguments().items()
+            if key in dependencies
         }
         input_types.update(
             {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in loader_cls.get_optional_arguments().items()
+                dependencies[key]: (type_, DependencyType.REQUIRED)
+                for key, type_ in loader_cls.get_required_arguments().items()
                 if key in dependencies
             }
         )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
 
         # the loader node is the node that loads the data from the data source.
         loader_node = node.Node(
@@ -528,43 +524,40 @@ class SaveToDecorator(SingleNodeNodeTransformer):
 
         adapter_factory = AdapterFactory(saver_cls, **self.kwargs)
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def save_data(
             __adapter_factory=adapter_factory,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __resolved_kwargs=resolved_kwargs,
             __data_node_name=node_to_save,
             **input_kwargs,
         ) -> Dict[str, Any]:
-            input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+            # several parameters can come from the same node, including the one we save
+            kwargs = {
+                **__resolved_kwargs,
+                **{
+                    key: input_kwargs[source]
+                    for key, source in __dependencies.items()
+                    if source in input_kwargs
+                },
             }
-            kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
-            data_to_save = kwargs[__data_node_name]
-            kwargs = {k: v for k, v in kwargs.items() if k != __data_node_name}
+            data_to_save = input_kwargs[__data_node_name]
             data_saver = __adapter_factory.create_saver(**kwargs)
             return data_saver.save_data(data_to_save)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
+        # The resolved kwargs are not dependencies, and will be filled out later
         input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in saver_cls.get_required_arguments().items()
+            dependencies[key]: (type_, DependencyType.OPTIONAL)
+            for key, type_ in saver_cls.get_optional_arguments().items()
+            if key in dependencies
         }
         input_types.update(
             {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in saver_cls.get_optional_arguments().items()
+                dependencies[key]: (type_, DependencyType.REQUIRED)
+                for key, type_ in saver_cls.get_required_arguments().items()
                 if key in dependencies
             }
         )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
         input_types[node_to_save] = (node_.type, DependencyType.REQUIRED)
         save_node = node.Node(
             name=artifact_name,
-- 
2.43.0


From 06695451e40706047940debb80d04d833f50dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:22 +0000
Subject: [PATCH 39/62] fix: two materializers with the same id are rejected
 instead of dropping the first

---
 hamilton/io/materialization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hamilton/io/materialization.py b/hamilton/io/materialization.py
index 2035bb4..c4396ef 100644
--- a/hamilton/io/materialization.py
+++ b/hamilton/io/materialization.py
@@ -458,7 +458,12 @@ def modify_graph(
     materializer_nodes = []
     for materializer in materializer_factories:
         materializer_nodes.extend(materializer.generate_nodes(fn_graph))
-    fn_graph = fn_graph.with_nodes({node_.name: node_ for node_ in materializer_nodes})
+    materializer_nodes_by_name = {node_.name: node_ for node_ in materializer_nodes}
+    if len(materializer_nodes_by_name) != len(materializer_nodes):
+        raise ValueError(
+            f"Materializer ids have to be unique, got: {[m.id for m in materializer_factories]}."
+        )
+    fn_graph = fn_graph.with_nodes(materializer_nodes_by_name)
     loader_nodes = []
     # We want to treat this as an override
     # For now what we'll do is:
-- 
2.43.0


From 713905a469620e73de090dca6e923f4e41b56cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 40/62] fix: Builder.build() does not add the legacy adapter to
 the builder again on every build

---
 hamilton/async_driver.py | 4 ++--
 hamilton/driver.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 30d5a38..1414a88 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -482,7 +482,7 @@ class Builder(driver.Builder):
 
         :return:
         """
-        adapters = self.adapters if self.adapters is not None else []
+        adapters = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapters.append(self.legacy_graph_adapter)
 
@@ -495,7 +495,7 @@ class Builder(driver.Builder):
         return AsyncDriver(
             self.config,
             *self.modules,
-            adapters=self.adapters,
+            adapters=adapters,
             result_builder=specified_result_builder,
             allow_module_overrides=self._allow_module_overrides,
         )
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 3d557c6..179999e 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2143,7 +2143,7 @@ class Builder:
         :return: The driver you specified.
         """
 
-        adapter = self.adapters if self.adapters is not None else []
+        adapter = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapter.append(self.legacy_graph_adapter)
 
-- 
2.43.0


From 4152f4bba7cd8b15af57a79288244ecf720af961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 41/62] fix: configuring a builder after build() does not
 change the configuration of drivers already built

---
 hamilton/async_driver.py | 2 +-
 hamilton/driver.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 1414a88..3276434 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -493,7 +493,7 @@ class Builder(driver.Builder):
         result_builders = [adapter for adapter in adapters if isinstance(adapter, base.ResultMixin)]
         specified_result_builder = base.DictResult() if len(result_builders) == 0 else None
         return AsyncDriver(
-            self.config,
+            self.config.copy(),
             *self.modules,
             adapters=adapters,
             result_builder=specified_result_builder,
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 179999e..b847a24 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2166,7 +2166,7 @@ class Builder:
             )
 
         return Driver(
-            self.config,
+            self.config.copy(),
             *self.modules,
             adapter=adapter,
             _materializers=self.materializers,
-- 
2.43.0


From f07b07d19bf0bb4de2ae4c3fb0ffe4c206b08c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 42/62] fix: Builder.copy() keeps allow_module_overrides and
 the kind of builder

---
 hamilton/driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index b847a24..1474de0 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2180,13 +2180,14 @@ class Builder:
 
         NOTE. The copied Builder currently holds reference of Builder attributes
         """
-        new_builder = Builder()
+        new_builder = type(self)()
         new_builder.v2_executor = self.v2_executor
         new_builder.config = self.config.copy()
         new_builder.modules = self.modules.copy()
         new_builder.legacy_graph_adapter = self.legacy_graph_adapter
         new_builder.adapters = self.adapters.copy()
         new_builder.materializers = self.materializers.copy()
+        new_builder._allow_module_overrides = self._allow_module_overrides
         new_builder.execution_manager = self.execution_manager
         new_builder.local_executor = self.local_executor
         new_builder.remote_executor = self.remote_executor
-- 
2.43.0


From 900142a1f94a982652d58bcb3a2d82f86594a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 43/62] fix: Driver does not append its default result builder
 to the list of adapters passed in

---
 hamilton/driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 1474de0..7d41e8d 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -328,8 +328,8 @@ class Driver:
             adapter = []
         if isinstance(adapter, lifecycle_base.LifecycleAdapterSet):
             return adapter
-        if not isinstance(adapter, list):
-            adapter = [adapter]
+        # copy, so we don't add to the list the caller passed in
+        adapter = list(adapter) if isinstance(adapter, list) else [adapter]
         # we have to have exactly one result builder
         contains_result_builder = False
         for adapter_impl in adapter:
-- 
2.43.0


From d2ab01a271e5cb063df8f9aa496e72558d67f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:05 +0000
Subject: [PATCH 44/62] fix: GracefulErrorAdapter recognises a sentinel that
 does not equal itself, such as NaN

---
 hamilton/lifecycle/default.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 313315b..73028c5 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -730,6 +730,8 @@ class GracefulErrorAdapter(NodeExecutionMethod):
 
         if not can_inject:
             for _key, value in node_kwargs.items():
+                if self.sentinel_value is value:  # some values, e.g. NaN, do not equal themselves
+                    return default_return
                 if type(self.sentinel_value) is type(value):
                     if self.sentinel_value == value:  # == versus is
                         return default_return
-- 
2.43.0


From 94d99e47380defb418a84894bbfb03d2f39ff08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:15 +0000
Subject: [PATCH 45/62] fix: parallel tasks do not discard each other's cache
 keys and data versions

---
 hamilton/caching/adapter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 6180a97..7a02d64 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -596,9 +596,8 @@ class HamiltonCacheAdapter(
         ):
             self.cache_keys[run_id][node_name] = cache_key
         elif node_role == NodeRoleInTaskExecution.INSIDE:
-            if self.cache_keys[run_id].get(node_name, SENTINEL) is SENTINEL:
-                self.cache_keys[run_id][node_name] = {}
-            self.cache_keys[run_id][node_name][task_id] = cache_key  # type: ignore ; we just initialized the nested dict
+            # tasks can run in several threads; setdefault() never discards what another task stored
+            self.cache_keys[run_id].setdefault(node_name, {})[task_id] = cache_key  # type: ignore
         else:
             raise ValueError(
                 f"Received `{node_role}`. Unhandled `NodeRoleInTaskExecution`, please report this bug."
@@ -734,9 +733,8 @@ class HamiltonCacheAdapter(
         elif node_role == NodeRoleInTaskExecution.EXPAND:
             self.data_versions[run_id][node_name] = {}
         elif node_role == NodeRoleInTaskExecution.INSIDE:
-            if self.data_versions[run_id].get(node_name, SENTINEL) is SENTINEL:
-                self.data_versions[run_id][node_name] = {}
-            self.data_versions[run_id][node_name][task_id] = data_version  # type: ignore ; we just initialized the nested dict
+            # tasks can run in several threads; setdefault() never discards what another task stored
+            self.data_versions[run_id].setdefault(node_name, {})[task_id] = data_version  # type: ignore
         else:
             raise ValueError(
                 f"Received `{node_role}`. Unhandled `NodeRoleInTaskExecution`, please report this bug."
-- 
2.43.0


From 152649cc5609f24f9eeb93d8360b9f190bb11ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:13 +0000
Subject: [PATCH 46/62] fix: strings with lone surrogates can be fingerprinted

---
 hamilton/caching/fingerprinting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index ee5ea96..763adc6 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -126,7 +126,8 @@ def hash_primitive(obj, *args, **kwargs) -> str:
 
     Primitive type returns a hash and doesn't have to handle depth.
     """
-    hash_object = hashlib.md5(str(obj).encode())
+    # strings such as decoded file names can contain lone surrogates
+    hash_object = hashlib.md5(str(obj).encode("utf-8", errors="surrogatepass"))
     return _compact_hash(hash_object.digest())
 
 
-- 
2.43.0


From 98ae6ff201967c38acb6ee4e29b3e5ce9e6be83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:13 +0000
Subject: [PATCH 47/62] fix: pandas fingerprint includes every row when index
 values repeat

---
 hamilton/caching/fingerprinting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index 763adc6..af5fc30 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -241,7 +241,8 @@ def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
     from pandas.util import hash_pandas_object
 
     hash_per_row = hash_pandas_object(obj)
-    return hash_mapping(hash_per_row.to_dict(), ignore_order=False, depth=depth + 1)
+    # iterate over the series itself: a dictionary only keeps one of the rows that share an index value
+    return hash_mapping(hash_per_row, ignore_order=False, depth=depth + 1)
 
 
 @hash_value.register(h_databackends.AbstractPolarsDataFrame)
-- 
2.43.0


From c2319c41f9c067f8decfc2a544842b46f57043c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:13 +0000
Subject: [PATCH 48/62] fix: arrays of Python objects are fingerprinted by
 content instead of memory address

---
 hamilton/caching/fingerprinting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index af5fc30..90673fb 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -270,4 +270,7 @@ def hash_numpy_array(obj, *args, depth: int = 0, **kwargs) -> str:
     Unsure, but it's an area to investigate.
     """
     # use the same depth because we're simply dispatching to another implementation
+    if obj.dtype.hasobject:
+        # the raw data of such arrays are memory addresses
+        return hash_value(obj.tolist(), depth=depth)
     return hash_bytes(obj.tobytes(), depth=depth)
-- 
2.43.0


From 490a2e42a21ae33bb0cc9623fe8ead8b5d9144d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:13 +0000
Subject: [PATCH 49/62] fix: numpy scalars inside collections are part of the
 fingerprint

---
 hamilton/caching/fingerprinting.py      | 9 +++++++++
 hamilton/experimental/h_databackends.py | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index 90673fb..13826ce 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -274,3 +274,12 @@ def hash_numpy_array(obj, *args, depth: int = 0, **kwargs) -> str:
         # the raw data of such arrays are memory addresses
         return hash_value(obj.tolist(), depth=depth)
     return hash_bytes(obj.tobytes(), depth=depth)
+
+
+@hash_value.register(h_databackends.AbstractNumpyScalar)
+def hash_numpy_scalar(obj, *args, depth: int = 0, **kwargs) -> str:
+    """Hash the equivalent Python object; types without one, e.g., ``longdouble``, return themselves."""
+    value = obj.item()
+    if isinstance(value, type(obj)):
+        return hash_repr(obj)
+    return hash_value(value, depth=depth)
diff --git a/hamilton/experimental/h_databackends.py b/hamilton/experimental/h_databackends.py
index 3726bc5..2e2cbda 100644
--- a/hamilton/experimental/h_databackends.py
+++ b/hamilton/experimental/h_databackends.py
@@ -135,6 +135,10 @@ class AbstractNumpyArray(AbstractBackend):
     _backends = [("numpy", "ndarray")]
 
 
+class AbstractNumpyScalar(AbstractBackend):
+    _backends = [("numpy", "generic")]
+
+
 def register_backends() -> Tuple[Tuple[type], Tuple[type]]:
     """Register databackends defined in this module that
     include `DataFrame` and `Column` in their class name
-- 
2.43.0


From e086dc97cf4ac0066ed992832f3a47620ee87840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:13 +0000
Subject: [PATCH 50/62] fix: data frames whose cells cannot be hashed do not
 make a cached run fail

---
 hamilton/caching/fingerprinting.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index 13826ce..c19d347 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -240,7 +240,10 @@ def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
     """
     from pandas.util import hash_pandas_object
 
-    hash_per_row = hash_pandas_object(obj)
+    try:
+        hash_per_row = hash_pandas_object(obj)
+    except TypeError:  # cells hold values that pandas cannot hash, e.g., lists
+        return UNHASHABLE
     # iterate over the series itself: a dictionary only keeps one of the rows that share an index value
     return hash_mapping(hash_per_row, ignore_order=False, depth=depth + 1)
 
@@ -250,7 +253,10 @@ def hash_polars_dataframe(obj, *args, depth: int = 0, **kwargs) -> str:
     """Convert a polars dataframe, series, or index to
     a list of hashes then hash it.
     """
-    hash_per_row = obj.hash_rows()
+    try:
+        hash_per_row = obj.hash_rows()
+    except Exception:  # columns of a type that polars cannot hash, e.g., lists
+        return UNHASHABLE
     return hash_sequence(hash_per_row.to_list(), depth=depth + 1)
 
 
-- 
2.43.0


From 3291b04088a2525d665cb6e4c1fbcb952186956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:54 +0000
Subject: [PATCH 51/62] fix: stopping the tracking client sends the updates its
 worker had already taken from the queue

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 5512164..d560f52 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -251,6 +251,9 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
                     self.flush(batch)
                     batch = []
                     last_flush_time = time.time()
+        # stopped: what was taken from the queue still has to be sent
+        if batch:
+            self.flush(batch)
 
     def flush(self, batch):
         """Flush the batch (send it to the backend or process it)."""
@@ -288,7 +291,8 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         while not self.data_queue.empty():
             try:
                 item = self.data_queue.get_nowait()
-                self.flush([item])
+                if item is not None:  # the marker for the end of the main thread
+                    self.flush([item])
             except queue.Empty:
                 break
 
-- 
2.43.0


From 8f990408134d938f1102ae9058385bee9e416662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:54 +0000
Subject: [PATCH 52/62] fix: a failed request does not end the tracking
 client's worker

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 50 +++++++++++++-------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index d560f52..e426608 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -262,21 +262,21 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         dag_run_ids = set([item["dag_run_id"] for item in batch])
         for dag_run_id in dag_run_ids:
             attributes_list, task_updates_list = create_batch(batch, dag_run_id)
-            response = requests.put(
-                f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
-                json={
-                    "attributes": make_json_safe(attributes_list),
-                    "task_updates": make_json_safe(task_updates_list),
-                },
-                headers=self._common_headers(),
-                verify=self.verify,
-            )
             try:
+                response = requests.put(
+                    f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
+                    json={
+                        "attributes": make_json_safe(attributes_list),
+                        "task_updates": make_json_safe(task_updates_list),
+                    },
+                    headers=self._common_headers(),
+                    verify=self.verify,
+                )
                 response.raise_for_status()
                 logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-            except HTTPError:
+            except Exception:
+                # a failed request must not end the worker: later updates still have to be sent
                 logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
-                raise
 
     def stop(self):
         """Stop the logger and process remaining events."""
@@ -574,22 +574,22 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
         dag_run_ids = set([item["dag_run_id"] for item in batch])
         for dag_run_id in dag_run_ids:
             attributes_list, task_updates_list = create_batch(batch, dag_run_id)
-            async with aiohttp.ClientSession() as session:
-                async with session.put(
-                    f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
-                    json={
-                        "attributes": make_json_safe(attributes_list),
-                        "task_updates": make_json_safe(task_updates_list),
-                    },
-                    headers=self._common_headers(),
-                    ssl=self.ssl,
-                ) as response:
-                    try:
+            try:
+                async with aiohttp.ClientSession() as session:
+                    async with session.put(
+                        f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
+                        json={
+                            "attributes": make_json_safe(attributes_list),
+                            "task_updates": make_json_safe(task_updates_list),
+                        },
+                        headers=self._common_headers(),
+                        ssl=self.ssl,
+                    ) as response:
                         response.raise_for_status()
                         logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-                    except HTTPError:
-                        logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
-                        # zraise
+            except Exception:
+                # a failed request must not end the worker: later updates still have to be sent
+                logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
 
     async def worker(self):
         """Worker thread to process the queue"""
-- 
2.43.0


From 50a87eb9313ab2e70e662b35f4e427a6e75c285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:12 +0000
Subject: [PATCH 53/62] fix: NaN, infinities and unusual dictionary keys no
 longer make the tracker lose updates or fail the run

---
 ui/sdk/src/hamilton_sdk/tracking/utils.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/tracking/utils.py b/ui/sdk/src/hamilton_sdk/tracking/utils.py
index b0e515d..899ed52 100644
--- a/ui/sdk/src/hamilton_sdk/tracking/utils.py
+++ b/ui/sdk/src/hamilton_sdk/tracking/utils.py
@@ -25,6 +25,15 @@ class CustomEncoder(json.JSONEncoder):
             return str_object
 
 
+def _make_key_json_safe(key: Any) -> Any:
+    """JSON objects only have string keys; the encoder converts these kinds of keys itself and rejects all others."""
+    try:
+        json.dumps({key: None}, allow_nan=False)
+        return key
+    except (TypeError, ValueError):
+        return str(key)
+
+
 def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
     """
     Converts an item to json-serializable format, converting datetime objects to string.
@@ -33,17 +42,17 @@ def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
     @return: A dictionary or list with non-serializable types converted.
     """
     if isinstance(item, dict):
-        return {k: make_json_safe(v) for k, v in item.items()}
+        return {_make_key_json_safe(k): make_json_safe(v) for k, v in item.items()}
     elif isinstance(item, list):
         return [make_json_safe(elem) for elem in item]
     elif isinstance(item, np.ndarray):
         return make_json_safe(list(item))
     elif isinstance(item, datetime.datetime):
         return item.isoformat()  # Convert datetime object to iso format string
-    elif dataclasses.is_dataclass(item):
+    elif dataclasses.is_dataclass(item) and not isinstance(item, type):
         return make_json_safe(dataclasses.asdict(item))
     elif isinstance(item, Enum):
-        return item.value  # Convert enum to its corresponding value
+        return make_json_safe(item.value)  # Convert enum to its corresponding value
     elif hasattr(item, "to_json"):
         # we convert to json string and then deserialize it so that
         # it's not a string in the UI.
@@ -58,11 +67,12 @@ def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
         return make_json_safe(item.to_dict())
     else:
         try:
-            json.dumps(item)  # Check if item is json serializable
+            # Check if item is json serializable; NaN and infinities are not part of JSON
+            json.dumps(item, allow_nan=False)
             if isinstance(item, str):
                 # escape null byte -- postgres doesn't like null bytes at least.
                 # we might need to escape more things; TBD.
                 return item.replace("\x00", "\\x00")
             return item
-        except TypeError:
+        except (TypeError, ValueError):
             return str(item)  # Convert item to string if not json serializable
-- 
2.43.0


From 8f71dc47baa021c84b5f8d3804f6ba4fc5112b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 54/62] fix: tracker keeps the runs of parallel tasks of one
 node apart

---
 ui/sdk/src/hamilton_sdk/adapters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 23cbb3a..6b44644 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -184,7 +184,7 @@ class HamiltonTracker(
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
         tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -258,7 +258,7 @@ class HamiltonTracker(
     ):
         """Captures end of node execution."""
         logger.debug("post_node_execute %s %s", run_id, task_id)
-        task_run: TaskRun = self.task_runs[run_id][node_.name]
+        task_run: TaskRun = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
 
@@ -511,7 +511,7 @@ class AsyncHamiltonTracker(
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
         tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -539,7 +539,7 @@ class AsyncHamiltonTracker(
         **future_kwargs,
     ):
         logger.debug("post_node_execute %s", run_id)
-        task_run = self.task_runs[run_id][node_.name]
+        task_run = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
         other_results = []
-- 
2.43.0


From 47f6cae1291bf11ce2f04b155946b27818289cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:30 +0000
Subject: [PATCH 55/62] fix: tracker does not record a run under the template
 of an earlier graph with the same id

---
 ui/sdk/src/hamilton_sdk/adapters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 6b44644..4344a0c 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -4,6 +4,7 @@ import logging
 import os
 import random
 import traceback
+import weakref
 from datetime import timezone
 from types import ModuleType
 from typing import Any, Callable, Dict, List, Optional, Union
@@ -137,6 +138,8 @@ class HamiltonTracker(
             vcs_info=vcs_info,
         )
         self.dag_template_id_cache[fg_id] = dag_template_id
+        # the id of a graph that no longer exists can be reused by another graph
+        weakref.finalize(graph, self.dag_template_id_cache.pop, fg_id, None)
 
     def pre_graph_execute(
         self,
@@ -471,6 +474,8 @@ class AsyncHamiltonTracker(
             vcs_info=vcs_info,
         )
         self.dag_template_id_cache[fg_id] = dag_template_id
+        # the id of a graph that no longer exists can be reused by another graph
+        weakref.finalize(graph, self.dag_template_id_cache.pop, fg_id, None)
 
     async def pre_graph_execute(
         self,
-- 
2.43.0


From c7e542ae40276dd9dd35c9e3a7f919cddf69dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:01 +0000
Subject: [PATCH 56/62] fix: zero-dimensional arrays do not make a tracked run
 fail

---
 ui/sdk/src/hamilton_sdk/tracking/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/tracking/utils.py b/ui/sdk/src/hamilton_sdk/tracking/utils.py
index 899ed52..337c2e5 100644
--- a/ui/sdk/src/hamilton_sdk/tracking/utils.py
+++ b/ui/sdk/src/hamilton_sdk/tracking/utils.py
@@ -46,7 +46,7 @@ def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
     elif isinstance(item, list):
         return [make_json_safe(elem) for elem in item]
     elif isinstance(item, np.ndarray):
-        return make_json_safe(list(item))
+        return make_json_safe(list(item) if item.ndim > 0 else item.item())
     elif isinstance(item, datetime.datetime):
         return item.isoformat()  # Convert datetime object to iso format string
     elif dataclasses.is_dataclass(item) and not isinstance(item, type):
-- 
2.43.0


From 43956c8ee1e9673f4c4768748fcb5888c9af58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:07 +0000
Subject: [PATCH 57/62] fix: the version of an input does not depend on the
 code or order of the functions that require it

---
 hamilton/graph_types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hamilton/graph_types.py b/hamilton/graph_types.py
index 2e6bb20..6bce531 100644
--- a/hamilton/graph_types.py
+++ b/hamilton/graph_types.py
@@ -167,10 +167,11 @@ class HamiltonNode:
         The option `strip=True` means docstring and comments are ignored
         when hashing the function.
         """
+        if self.is_external_input:
+            # return the name of the input/config node. (we could add type but skipping for now)
+            # Its originating functions are those that require it; it has no code of its own.
+            return self.name
         if self.originating_functions is None or len(self.originating_functions) == 0:
-            if self.is_external_input:
-                # return the name of the config node. (we could add type but skipping for now)
-                return self.name
             return None  # this shouldn't happen often.
         try:
             versions = [hash_source_code(fn, strip=True) for fn in self.originating_functions]
-- 
2.43.0


From 330666a10a1a1df65349fc9f70e686f3c393016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:16 +0000
Subject: [PATCH 58/62] fix: CacheAdapter tells apart equal values passed to
 different parameters

---
 hamilton/lifecycle/default.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 73028c5..9d994b8 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -432,8 +432,8 @@ class CacheAdapter(NodeExecutionHook, NodeExecutionMethod, GraphExecutionHook):
         digest = hashlib.sha256()
         digest.update(node_hash.encode())
 
-        for ins in node_inputs.values():
-            digest.update(pickle.dumps(ins))
+        for name, ins in node_inputs.items():
+            digest.update(pickle.dumps((name, ins)))
 
         return digest.hexdigest()
 
-- 
2.43.0


From b8761b69cd40263cf5495c2ce3bdda403500eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:16 +0000
Subject: [PATCH 59/62] fix: CacheAdapter does not store a retrieved result
 under the code of an earlier run

---
 hamilton/lifecycle/default.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 9d994b8..40bef73 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -392,6 +392,8 @@ class CacheAdapter(NodeExecutionHook, NodeExecutionMethod, GraphExecutionHook):
 
         from_cache = self.cache.get(cache_key, None)
         if from_cache is not None:
+            # the hash of an earlier cache miss (of another run) doesn't belong to this result
+            self.used_nodes_hash.pop(node_name, None)
             return from_cache
 
         self.used_nodes_hash[node_name] = node_hash
-- 
2.43.0


From 1ee7d3c6eaf4c78d0d0858784a0c6d3ec59e18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:16 +0000
Subject: [PATCH 60/62] fix: CacheAdapter tells apart nodes that stem from one
 function, and changes of decorator arguments

---
 hamilton/lifecycle/default.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 40bef73..dbd1c7b 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -355,6 +355,7 @@ class CacheAdapter(NodeExecutionHook, NodeExecutionMethod, GraphExecutionHook):
             key=CacheAdapter.nodes_history_key, default=dict()
         )
         self.used_nodes_hash: Dict[str, str] = dict()
+        self.nodes_version: Dict[str, str] = dict()
         self.cache.close()
 
         logger.warning(
@@ -369,11 +370,15 @@ class CacheAdapter(NodeExecutionHook, NodeExecutionMethod, GraphExecutionHook):
         self.cache = shelve.open(self.cache_path)
         if len(self.cache_vars) == 0:
             self.cache_vars = [n.name for n in graph.nodes]
+        # several nodes can stem from the same function or share a callable, hence the name
+        self.nodes_version = {
+            n.name: f"{n.name}:{n.version}" for n in graph.nodes if n.version is not None
+        }
 
     def run_to_execute_node(
         self, *, node_name: str, node_callable: Any, node_kwargs: Dict[str, Any], **kwargs
     ):
-        """Create cache key based on node callable hash (equiv. to HamiltonNode.version) and
+        """Create cache key based on the node name and version (or the hash of its callable) and
         the node inputs (`node_kwargs`).If key in cache (cache hit), load result; else (cache miss),
         compute the node and append node name to `used_nodes_hash`.
 
@@ -384,10 +389,12 @@ class CacheAdapter(NodeExecutionHook, NodeExecutionMethod, GraphExecutionHook):
         if node_name not in self.cache_vars:
             return node_callable(**node_kwargs)
 
-        source_of_node_callable = node_callable
-        while isinstance(source_of_node_callable, partial):  # handle partials
-            source_of_node_callable = source_of_node_callable.func
-        node_hash = graph_types.hash_source_code(source_of_node_callable, strip=True)
+        node_hash = self.nodes_version.get(node_name)
+        if node_hash is None:
+            source_of_node_callable = node_callable
+            while isinstance(source_of_node_callable, partial):  # handle partials
+                source_of_node_callable = source_of_node_callable.func
+            node_hash = graph_types.hash_source_code(source_of_node_callable, strip=True)
         cache_key = CacheAdapter.create_key(node_hash, node_kwargs)
 
         from_cache = self.cache.get(cache_key, None)
-- 
2.43.0


From 17fa889a131340da9276904a1d07d41d3566ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:00 +0000
Subject: [PATCH 61/62] fix: ignoring a loader added by a materializer works
 with the persistent cache

---
 hamilton/caching/adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 7a02d64..9abb0da 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -761,7 +761,8 @@ class HamiltonCacheAdapter(
         self.metadata_store.set(
             run_id=run_id,
             node_name=node_name,
-            code_version=self.code_versions[run_id][node_name],
+            # nodes added by materializers have no code version, ignored nodes have no cache key to decode
+            code_version=str(self.code_versions[run_id][node_name]),
             data_version=data_version,
             cache_key=cache_key,
         )
-- 
2.43.0


From 80d00256cab2e636e51f7e014bc088ad35215a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:03 +0000
Subject: [PATCH 62/62] fix: default_loader_behavior applies to @load_from

---
 hamilton/caching/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 9abb0da..c8130ea 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -980,7 +980,7 @@ class HamiltonCacheAdapter(
                         disable=_disable,
                         recompute=_recompute,
                         ignore=_ignore,
-                        default_behavior=default_loader_behavior,
+                        default_loader_behavior=default_loader_behavior,
                     )
 
                 self._data_loaders[run_id].append(main_node)
-- 
2.43.0

