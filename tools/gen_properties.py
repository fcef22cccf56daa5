#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

prop("C01", "Executing outputs equals evaluating the functions, each needed one once",
 "For every dataflow of plain functions and every choice of requested outputs, inputs, config and overrides, executing returns for each requested output, in the order requested, exactly the value obtained by calling its function on the values of the parameters it names, where an override replaces a node and an optional parameter that nothing supplies keeps its default. Every function needed for the outputs is called exactly once and after its dependencies; no other function is called, in particular none needed only through an overridden node. If a required input is missing, execution raises before any function is called, and an exception raised by a function reaches the caller unchanged.",
 ["programs", "inputs", "configurations"],
 "all DAGs up to a node bound with every required/optional edge pattern x requested sets x supplied inputs/config x overrides x failing function",
 "Tests execute a handful of hand-written modules with one or two override/input combinations each; the claim is over all graph shapes, where memoisation, result pruning and override cuts interact.",
 ["hamilton/driver.py", "hamilton/graph.py", "hamilton/execution/graph_functions.py", "hamilton/node.py"],
 [("depth-first memoised evaluation with override cut and release of finished intermediates", "hamilton/execution/graph_functions.py:execute_subdag"), ("selection of needed nodes and required-input validation", "hamilton/graph.py:get_upstream_nodes, hamilton/driver.py:validate_inputs"), ("assembly of the outputs dict", "hamilton/driver.py:DefaultGraphExecutor.execute")],
 ["return value of execute", "call log of the functions"])

prop("C02", "Dynamic/parallel execution gives the sequential result under every schedule",
 "For every dataflow, including ones that fan out over a runtime-sized list (possibly empty) and collect, and for every grouping of nodes into tasks (fanned-out bodies staying in blocks), executor assignment, task limit and order in which submitted tasks finish, dynamic execution of outputs that lie outside fanned-out bodies terminates and returns what plain sequential evaluation gives, with collected items in the order they were produced. Each needed function runs exactly once per fanned-out item (once if not fanned out), never before its dependencies finished and never with more tasks in flight than the executor allows. If any function raises, execution terminates and that exception reaches the caller, and executors that were started are always shut down.",
 ["schedules", "programs", "inputs", "fault_sequences"],
 "all completion orders of in-flight tasks x fan-out sizes 0..3 x groupings x executors/limits x failing task x small dataflows incl. two fan-outs, nested non-block nodes, overrides",
 "Tests use real thread pools (one schedule per run) or synchronous executors; orderings of completions, empty fan-outs and failures at each point are not enumerated.",
 ["hamilton/execution/executors.py", "hamilton/execution/state.py", "hamilton/execution/grouping.py", "hamilton/driver.py"],
 [("task state machine, realisation of fan-out blocks, result cache namespaces", "hamilton/execution/state.py:ExecutionState"), ("launch/poll loop with executor capacity", "hamilton/execution/executors.py:run_graph_to_completion"), ("grouping of nodes into tasks and task plan", "hamilton/execution/grouping.py")],
 ["return value / exception of execute", "submissions, completions, init/finalize seen by a custom task executor"])

prop("C03", "Async execution gives the sequential result under every event-loop schedule",
 "For every dataflow mixing coroutine and ordinary functions and every order in which suspended coroutines resume, asynchronous execution returns exactly what evaluating the functions sequentially gives, calls each needed function exactly once after its dependencies, and calls no other. Several executions in flight on one driver do not affect each other's results. An exception raised by any function reaches the awaiting caller, and execution never hangs.",
 ["schedules", "programs", "inputs", "fault_sequences"],
 "all resumption orders of pending awaits x DAGs up to a bound x sync/async labelling x overrides/inputs x failing node x two concurrent executions",
 "Tests run on the stock event loop, which yields one fixed order per program.",
 ["hamilton/async_driver.py", "hamilton/lifecycle/base.py"],
 [("per-node tasks/futures memoised by name", "hamilton/async_driver.py:AsyncGraphAdapter.do_node_execute, process_value"), ("async driver raw execution and result gathering", "hamilton/async_driver.py:AsyncDriver")],
 ["awaited result or exception", "call log of functions"])

prop("C04", "Lifecycle hooks bracket every run and node, whatever fails",
 "For every set of registered adapters and every point at which a function, hook, validator or result builder may raise, each run produces exactly one before-graph and one after-graph notification per adapter (the latter also when execution failed, with the success flag, error and results telling the truth), and each executed node produces one before-node notification, then its execution, then one after-node notification with that node's true arguments, result or error. Nodes that do not execute produce no notification, and adapters are notified in registration order. If a hook raises, its error reaches the caller and nothing more is executed. The same holds for synchronous and task-based drivers, for materialisation, and, for asynchronous hooks (whose mutual order is not fixed) and synchronous graph hooks up to result building, for the asynchronous driver; nothing is promised about after-graph notifications when a before-graph hook itself raises.",
 ["fault_sequences", "configurations", "programs"],
 "every single failure point (each hook call, each function, result builder) x adapter sets x driver kind",
 "Tests check hooks for the all-success run and one failing node; the exception-path combinations are not enumerated.",
 ["hamilton/lifecycle/base.py", "hamilton/driver.py", "hamilton/async_driver.py", "hamilton/execution/graph_functions.py", "hamilton/execution/executors.py"],
 [("dispatch of hooks/methods/validators over the adapter set", "hamilton/lifecycle/base.py:LifecycleAdapterSet"), ("try/except/finally bracketing", "hamilton/execution/graph_functions.py:execute_lifecycle_for_node, hamilton/driver.py:execute")],
 ["event log of recording adapters"])

prop("C05", "Caching never changes results: no stale or wrong value over any history",
 "For every history of runs sharing one cache, in which between runs function bodies, inputs, overrides, config, caching behaviours, the requested outputs or the stored entries change, every run with caching enabled returns exactly the values a run without a cache would return (functions being deterministic, values not modified in place, ignored nodes keeping their value; edits are to the functions and decorators of the dataflow itself, not to helpers they call). This holds for both the default on-disk and the in-memory stores and across driver restarts.",
 ["histories", "programs", "inputs", "configurations"],
 "all sequences up to a depth over {run, edit a function, change an input, override a node, change behaviour, delete/corrupt entry, restart} on small dataflows incl. parallel blocks",
 "Tests try a few fixed two-run scenarios; staleness needs a particular sequence of edits, inputs and deletions.",
 ["hamilton/caching/adapter.py", "hamilton/caching/cache_key.py", "hamilton/caching/fingerprinting.py", "hamilton/caching/stores/"],
 [("cache key = node, code version, data versions of dependencies", "hamilton/caching/cache_key.py, hamilton/caching/adapter.py:get_cache_key"), ("retrieve-or-execute decision", "hamilton/caching/adapter.py:do_node_execute"), ("code version of a node", "hamilton/graph_types.py:hash_source_code")],
 ["return value of execute with and without a cache"])

prop("C06", "Cache behaviours are honoured: what re-executes is exactly what must",
 "For every history of runs, a node with default behaviour executes if and only if no earlier run stored a result for the same code and the same dependency values (or that result was deleted); a node marked recompute or disabled executes every time; a node marked ignore executes every time without causing its dependents to execute again. Disabled nodes are never stored or retrieved and a node depending on one executes every time; ignored nodes are never retrieved. Behaviours set on the builder take precedence over those set by decorators, which take precedence over the default.",
 ["histories", "configurations", "programs"],
 "all run sequences x behaviour assignments (decorator x builder x default) x code/input edits on small dataflows",
 "Tests assert call counts for one behaviour at a time on a fixed graph.",
 ["hamilton/caching/adapter.py", "hamilton/function_modifiers/metadata.py"],
 [("behaviour resolution order", "hamilton/caching/adapter.py:resolve_behaviors"), ("execute/retrieve/recompute decisions", "hamilton/caching/adapter.py:do_node_execute")],
 ["call log of functions", "cache logs"])

prop("C07", "The cache is safe under parallel task execution",
 "When tasks of one run execute concurrently in threads with caching enabled, then under every interleaving the run completes with the same results as without caching, raises no error of its own, and leaves a cache from which a following run retrieves correct values; the record of the run holds the cache key and data version of every task. Two concurrent runs sharing one store never corrupt it or see each other's partial writes.",
 ["schedules", "histories"],
 "all interleavings of task threads up to a preemption bound at source-line granularity inside the library, x small fan-out dataflows x stores x cold/warm cache",
 "Thread tests run a handful of OS schedules; check-then-act races need one specific preemption.",
 ["hamilton/caching/adapter.py", "hamilton/caching/stores/sqlite.py", "hamilton/caching/stores/file.py", "hamilton/caching/stores/memory.py"],
 [("per-run dictionaries of behaviours, code/data versions and cache keys", "hamilton/caching/adapter.py"), ("thread-local sqlite connections", "hamilton/caching/stores/sqlite.py")],
 ["return value of execute", "subsequent run"])

prop("C08", "A crash at any point never poisons the cache",
 "If the process dies at any point during a cached run - between any two operations on the store's files, or with only a prefix of a file's bytes written - then later runs on the same cache directory complete normally and return the same values as without a cache. Entries completely stored before the crash are still retrieved.",
 ["crash_points", "histories"],
 "every file-system/database operation of a run as crash point x torn-write prefixes of the interrupted write x node sequences",
 "Tests never crash mid-write.",
 ["hamilton/caching/stores/file.py", "hamilton/caching/stores/sqlite.py", "hamilton/caching/adapter.py"],
 [("result file write then metadata insert", "hamilton/caching/adapter.py, hamilton/caching/stores/file.py"), ("fallback to execution when a stored result cannot be retrieved", "hamilton/caching/adapter.py")],
 ["result of the run after the crash"])

prop("C09", "Cache stores behave as a map for every sequence of operations",
 "For every sequence of set, get, exists, delete, delete-all, size and reopen operations, the on-disk and in-memory stores give the answers of a simple map: a get returns the value of the last set that was not deleted, a missing key is reported as missing, size counts the live keys, and reopening an on-disk store loses nothing. Run records list exactly the keys recorded for that run, in run order. Values are returned equal to what was stored, for every supported format.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over 2 keys x 2 values x 2 runs, both backends and round-trips through memory/disk persistence",
 "Tests exercise each operation once from a fresh store.",
 ["hamilton/caching/stores/base.py", "hamilton/caching/stores/file.py", "hamilton/caching/stores/sqlite.py", "hamilton/caching/stores/memory.py"],
 [("key/value tables and run tables", "hamilton/caching/stores/sqlite.py"), ("content-addressed files", "hamilton/caching/stores/file.py"), ("dictionary stores and persist/load", "hamilton/caching/stores/memory.py")],
 ["return values of the store operations"])

prop("C10", "Data fingerprints are stable, and different values get different ones",
 "The fingerprint of a value depends only on the value: it is the same in every process, for every copy, and for every insertion order of an unordered collection. Two different values of the same type, element types included, have different fingerprints, for numbers, strings, bytes, sequences, mappings, sets, plain objects, nestings of these, and the elements and indexes of arrays, series and data frames.",
 ["inputs"],
 "all pairs of values of a bounded universe of nested values; all permutations of insertion order; separate interpreter processes with different hash seeds",
 "Tests pin a few literal hashes; injectivity is a statement about all pairs.",
 ["hamilton/caching/fingerprinting.py"],
 [("type-dispatched structural hashing", "hamilton/caching/fingerprinting.py:hash_value")],
 ["fingerprint strings"])

prop("C11", "Config decides exactly which implementations exist, build after build",
 "For every config, a conditionally decorated function contributes its node, under the name before the version suffix, if and only if its condition (equal, not-equal, in, not-in, custom, and conjunctions of stacked conditions) holds for that config, a missing key counting as None. Two implementations selected for the same name are rejected. The resulting dataflow depends only on the config and modules: building other drivers from the same modules with other configs, before or after, in any order, changes nothing.",
 ["configurations", "histories", "programs"],
 "all configs over a small key/value domain incl. missing/None x decorator stacks x build histories",
 "Tests build each decorated function once or twice; resolution mutates function objects so the outcome could depend on build history.",
 ["hamilton/function_modifiers/configuration.py", "hamilton/function_modifiers/base.py", "hamilton/graph.py", "hamilton/function_modifiers/delayed.py"],
 [("resolver evaluation and renaming", "hamilton/function_modifiers/configuration.py:config.resolve"), ("duplicate-name rejection", "hamilton/graph.py:create_function_graph")],
 ["available variables and execution results of built drivers"])

prop("C12", "Expansion decorators equal the hand-written dataflow",
 "For every use of the expanding and rewiring decorators (parameterising with literal, upstream and grouped dependencies; injecting; extracting fields or columns, with fill; replacing a body; resolving a decorator from config) the built dataflow has exactly the nodes a hand-written expansion would have, each depending on exactly the named upstream nodes, and every node computes the hand-written value. Undecorated parameters stay wired by name and keep their defaults, and extra nodes are never introduced or lost.",
 ["programs", "inputs"],
 "all bounded combinations: functions of up to 3 parameters x dependency kinds per parameter x outputs x stacked decorators x sync/async drivers",
 "Tests cover each decorator alone with one argument pattern; interactions (optional parameter left out, same source twice, group of one, stacked expansion) are not enumerated.",
 ["hamilton/function_modifiers/expanders.py", "hamilton/function_modifiers/dependencies.py", "hamilton/function_modifiers/macros.py", "hamilton/function_modifiers/base.py", "hamilton/node.py"],
 [("parameterised node construction", "hamilton/function_modifiers/expanders.py:parameterize.expand_node"), ("lifecycle order of decorators", "hamilton/function_modifiers/base.py:resolve_nodes")],
 ["available variables", "execution results"])

prop("C13", "Subdags and pipes compute their inlined equivalent, without name leakage",
 "For every use of sub-dataflows (with inputs, config, namespaces, several instances, parameterised, nested) and of input/output pipes and mutations (conditional, named, namespaced, targeted steps), executing yields what textually inlining the sub-dataflow or applying the steps in order yields. Instances never share or overwrite each other's nodes: changing one instance's inputs or config, or requesting only one of them, does not affect another. Steps whose condition does not hold for the config are left out.",
 ["programs", "configurations", "inputs"],
 "all bounded combinations of instances x inputs (literal/upstream/unset) x config x namespace; step sequences up to length 3 x conditions x targets",
 "Tests use one configuration each; collisions and leakage need particular combinations.",
 ["hamilton/function_modifiers/recursive.py", "hamilton/function_modifiers/macros.py", "hamilton/node.py"],
 [("namespacing of sub-dataflow nodes", "hamilton/function_modifiers/recursive.py:subdag"), ("step chaining", "hamilton/function_modifiers/macros.py:pipe_input, pipe_output, mutate, chain_transforms")],
 ["available variables", "execution results"])

prop("C14", "A dataflow builds exactly when it is well formed, independent of order",
 "Building succeeds if every parameter is produced by a function of a compatible type or becomes an input, with consistent types for one input's uses, and no two functions define the same name; otherwise it raises and names the problem. When module overriding is allowed, the later module's definition wins for every dependent, and only public functions defined in the given modules become nodes. The resulting dataflow and its results do not depend on the order of functions within or (without overriding) between modules.",
 ["programs", "configurations"],
 "all small programs over a type lattice x edges x module splits x definition orders x override on/off",
 "Tests show single examples of each rejection; the iff over all programs and orders is not explored.",
 ["hamilton/graph.py", "hamilton/graph_utils.py", "hamilton/htypes.py", "hamilton/node.py"],
 [("edge and input type checks", "hamilton/graph.py:add_dependency, hamilton/htypes.py:types_match"), ("duplicate detection and module overrides", "hamilton/graph.py:create_function_graph")],
 ["build outcome", "available variables", "execution results"])

prop("C15", "Lineage, tag and validation queries agree with the dataflow",
 "For every dataflow, what the driver reports as upstream of, downstream of and between nodes is exactly reachability in the dependency relation, reported dependencies and inputs/outputs flags match the functions, cycles are reported if and only if present, and listing by tags returns exactly the nodes whose tags satisfy the filter. Validating an execution without running it succeeds if and only if executing it would not be rejected before the first function call.",
 ["programs", "inputs"],
 "all DAGs (and small cyclic graphs) up to a node bound x all node pairs/sets x all tag filters of a small universe",
 "Tests query one or two graphs.",
 ["hamilton/driver.py", "hamilton/graph.py", "hamilton/node.py", "hamilton/graph_types.py", "hamilton/execution/graph_functions.py"],
 [("graph traversals", "hamilton/graph.py:directional_dfs_traverse, nodes_between"), ("tag matching", "hamilton/node.py:matches_query")],
 ["results of the query methods"])

prop("C16", "Materializers save exactly what was computed and load exactly what was saved",
 "For every set of savers and loaders attached to a dataflow (declared on the builder, passed per call, or by decorators), each saver receives exactly the value its target nodes have in a run without savers (combined as requested), is invoked once when requested and not otherwise, and reports its own metadata; each loader replaces its target's value by the loaded one for all dependents. Attaching or running them changes no other node's value and leaves the driver's own dataflow as it was for later calls. Saver and loader parameters taken from other nodes receive those nodes' values.",
 ["programs", "configurations", "histories"],
 "all bounded combinations of savers/loaders x targets x parameter sources x additional outputs x overrides, and call histories on one driver",
 "Tests use one saver at a time.",
 ["hamilton/io/materialization.py", "hamilton/function_modifiers/adapters.py", "hamilton/driver.py"],
 [("saver/loader node creation", "hamilton/function_modifiers/adapters.py:create_saver_node, get_loader_nodes"), ("graph modification", "hamilton/io/materialization.py:modify_graph, hamilton/driver.py:materialize")],
 ["calls seen by recording savers/loaders", "return values"])

prop("C17", "Drivers and builders are isolated: earlier calls never affect later ones",
 "For every sequence of operations on drivers and builders (configure, copy, build, execute successfully or not, materialise, query, with any inputs and overrides), each operation behaves as it would on a fresh driver built from the same specification. Building twice from one builder gives equivalent drivers, a copied builder behaves like the original and changes to either do not affect the other or already built drivers, and arguments passed by the caller are not modified.",
 ["histories", "configurations"],
 "all operation sequences up to a depth over a builder alphabet and a driver alphabet, compared with fresh replays",
 "Tests rarely execute a driver more than once or reuse a builder.",
 ["hamilton/driver.py", "hamilton/graph.py", "hamilton/lifecycle/base.py", "hamilton/base.py"],
 [("per-execution memo tables; non-mutating graph modification", "hamilton/driver.py, hamilton/graph.py:with_nodes"), ("builder copy/build", "hamilton/driver.py:Builder")],
 ["results, exceptions and adapter notifications of each operation"])

prop("C18", "Validated outputs: fail-level failures stop, warn-level only warn, never alter",
 "For every decorated function, set of validators, importance levels, targets and validator outcomes, the validated node returns the original value unchanged when no fail-level validator fails, and otherwise execution raises a validation error naming every failed fail-level validator; warn-level failures only log. Every validator runs exactly once on the undecorated value and its result is available as a node. The built-in validators accept a value exactly when it satisfies their documented condition.",
 ["inputs", "configurations", "programs"],
 "all combinations of up to 3 validators x pass/fail x warn/fail x target selection; built-in validators x boundary values",
 "Tests use one validator per case.",
 ["hamilton/function_modifiers/validation.py", "hamilton/data_quality/base.py", "hamilton/data_quality/default_validators.py"],
 [("raw/validator/final node construction", "hamilton/function_modifiers/validation.py:transform_node"), ("bulk failure", "hamilton/data_quality/base.py:act_fail_bulk")],
 ["results, exceptions, log records"])

prop("C19", "Graceful error handling prunes exactly the affected branches",
 "With graceful error handling, for every dataflow and every set of functions raising the designated error, every node that raises it, and every node depending on one (directly or not, unless it accepts sentinels), yields the sentinel without its function being called, and every other node yields its normal value. Errors of other kinds still abort execution. In fan-outs, a failing item affects only its own branch and the collected list keeps its order.",
 ["programs", "fault_sequences"],
 "all DAGs up to a bound x all failing subsets x error kinds x sentinel values x injection flags; fan-outs x failing items x both fan-out modes",
 "Tests cover one chain and one fan-out.",
 ["hamilton/lifecycle/default.py"],
 [("node execution wrapper", "hamilton/lifecycle/default.py:GracefulErrorAdapter")],
 ["results and call log"])

prop("C20", "Tracking client delivers every update once, whatever the timing",
 "For every interleaving of updates being queued, the background sender flushing, and the client being stopped, and with any individual request failing, every update that was queued before stopping and whose request succeeded is delivered exactly once and none is silently dropped; updates of one run and node are delivered without losing the latest state. Stopping always terminates after pending updates are sent, and a failed request never prevents later updates from being sent.",
 ["schedules", "fault_sequences"],
 "all interleavings of producer / background sender / stop at queue, flush and request granularity x request failures, for the threaded and the asynchronous client",
 "Tests mock the client; no test runs the sender concurrently.",
 ["ui/sdk/src/hamilton_sdk/api/clients.py"],
 [("queue, batching worker and flush", "ui/sdk/src/hamilton_sdk/api/clients.py:BasicSynchronousHamiltonClient, BasicAsynchronousHamiltonClient")],
 ["requests sent to a stub server transport"])

prop("C21", "The tracker's record of a run matches what happened",
 "For every execution with the tracker attached, successful or failing, sequential, fanned-out in parallel under any schedule, or asynchronous, the recorded run ends with the true status, the run is recorded under the dataflow it executed, each executed node instance is recorded once as started and once as finished with its true status, its own start and end times and its own result or error summary, and no other node is recorded. The tracker never changes results or errors, nor fails because of the kind of value a node returns.",
 ["schedules", "fault_sequences", "programs", "inputs"],
 "all completion orders of fan-outs x failing node x driver kinds x result kinds",
 "Tests run a single success and one failure with a mock client.",
 ["ui/sdk/src/hamilton_sdk/adapters.py", "ui/sdk/src/hamilton_sdk/tracking/"],
 [("tracker hooks", "ui/sdk/src/hamilton_sdk/adapters.py:HamiltonTracker"), ("result summaries", "ui/sdk/src/hamilton_sdk/tracking/")],
 ["calls received by a recording client"])

prop("C22", "Code versions change exactly when the code does",
 "The version of a node or dataflow is the same for the same source in every process, load order and driver, changes whenever the code of a function it is built from changes (the decorated function, pipe steps, functions of a subdag; not helpers it merely calls), and does not change with comments, docstrings or formatting only. Comparing two versions of a dataflow reports exactly the nodes added, removed and changed.",
 ["programs", "histories"],
 "all pairs of programs of a bounded universe of function variants; separate processes",
 "Tests compare one or two variants.",
 ["hamilton/graph_types.py", "hamilton/cli/logic.py"],
 [("source hashing without comments/docstrings", "hamilton/graph_types.py:hash_source_code"), ("graph diff", "hamilton/cli/logic.py")],
 ["version strings and diff results"])

prop("C23", "The older caching adapters never return a stale or foreign value",
 "For every history of runs with the older key/value caching adapters (CacheAdapter, and DiskCacheAdapter for functions that become one node each with required parameters) over code edits, decorator argument changes, inputs, failing runs, and a new or reused adapter object, each run returns what an uncached run of the same code and inputs returns (deterministic functions, results other than None), and repeating a completed run executes no cached function again. For every history of runs with the tag-driven file cache (CachingGraphAdapter), a tagged node is read from its file exactly when the file exists, the node is not forced and no node it depends on (transitively through untagged nodes) was recomputed in this run; otherwise it is recomputed and its file replaced; a run that fails leaves the files of the nodes it did not recompute unchanged.",
 ["histories", "programs"],
 "all run sequences up to a depth over code edits, input changes, forced recomputations, deletions",
 "Tests do single two-run scenarios.",
 ["hamilton/lifecycle/default.py", "hamilton/experimental/h_cache.py", "hamilton/plugins/h_diskcache.py"],
 [("code+inputs key", "hamilton/lifecycle/default.py:CacheAdapter, hamilton/plugins/h_diskcache.py"), ("tag-driven cache and recomputation propagation", "hamilton/experimental/h_cache.py:CachingGraphAdapter")],
 ["results of runs with and without the adapter"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
