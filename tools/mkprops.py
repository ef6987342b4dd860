#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property list).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Readers only ever see a published, unmodified snapshot of a layer",
"While a reader is inside a read of a layer or of the final-address map, nothing it can see is modified or freed, whatever the single writer does concurrently: further updates, any number of publishes, or the writer being dropped. Everything one read observes (value lookups, iteration, length, metadata) comes from one single published version, never a mixture of versions and never unpublished changes. Readers may be created, cloned and dropped at any time on any thread.",
["schedules","histories"],"for every interleaving of one writer and any number of readers (including weak memory reorderings of the atomics used), every history of inserts, updates, removals, purges, publishes and writer teardown",
"Unit tests run monomap single threaded or with one incidental OS interleaving; the bad window is a few instructions between loading a pointer and announcing the read.",
["goko/src/monomap/read.rs","goko/src/monomap/write.rs","goko/src/monomap/inner.rs","goko/src/covertree/layer.rs"],
[("reader epoch announce / pointer load protocol","goko/src/monomap/read.rs with_handle"),("writer waits for departed readers before touching the old copy","goko/src/monomap/write.rs wait/refresh"),("teardown: swap in null then wait","goko/src/monomap/write.rs Drop")],
[("epoch","per reader counter, top bit set when idle","goko/src/monomap/read.rs"),("last_epochs","epochs seen right after the last swap","goko/src/monomap/write.rs")],
["values, iteration and length observed inside a read closure"],"atomics of the map behind a shim so the scheduler can interleave at each operation")

p("C02","Publishing makes every earlier change visible, in order, exactly once",
"After a publish returns, every read that starts later, on any reader, sees exactly the state obtained by applying all changes made so far in order, each applied exactly once; before the publish none of them is visible. Successive reads through one reader never go back to an older version. Any sequence of inserts, updates, removals, purges, metadata changes and publishes therefore behaves like one sequential map whose reader view advances only at publishes; after the writer is dropped readers see 'no such entry' and nothing else.",
["histories","schedules"],"for every history of writer operations and publishes interleaved in any way with reads",
"The two copies are replayed alternately from a log; errors show only after particular alternations of operations and publishes which no unit test enumerates.",
["goko/src/monomap/write.rs","goko/src/monomap/read.rs","goko/src/covertree/layer.rs"],
[("oplog replayed on both copies; first publish clones","goko/src/monomap/write.rs refresh"),("swap_index bookkeeping","goko/src/monomap/write.rs"),("drop flushes then nulls","goko/src/monomap/write.rs Drop")],
[("oplog","operations not yet applied to both copies","goko/src/monomap/write.rs"),("swap_index","how many of them the published copy already has","goko/src/monomap/write.rs")],
["reader lookups, iteration and len after each publish"],"map exposed to the harness under the guard")

p("C03","Publishing and teardown always finish; readers never wait",
"Once readers that were active stop being inside a read, a publish or a drop of the writer completes within a bounded number of its own steps, even if readers keep starting new reads, were created or dropped meanwhile, or a read ended by a panic in the caller's closure. A read completes in a bounded number of its own steps no matter where the writer is stalled. No combination of publishes, reads, reader creation and teardown deadlocks, except that a thread inside a read must not itself create readers.",
["schedules","fault_sequences"],"for every schedule, including stalled writers, stalled readers, and panicking read closures",
"Liveness under adversarial scheduling and panics is invisible to tests that only run to completion once.",
["goko/src/monomap/write.rs","goko/src/monomap/read.rs"],
[("parity restored by a drop guard even on panic","goko/src/monomap/read.rs with_handle"),("spin with yield until epochs move","goko/src/monomap/write.rs wait")],
[],["step counts of publish/read/drop under the scheduler"],"scheduler visible spin loop")

p("C04","Parallel build yields a valid cover tree holding each point exactly once",
"For every data set, parameter choice and scheduling of the worker threads, a successful build returns a finished tree: every point index of the point cloud is covered exactly once, every node below the root is reachable from the root through its parent, has a parent link back to it, a scale index below its parent's and a nested child with the same centre where it has children. Distinct children of a node are at least scale_base^(their scale index) apart. Every point below a node lies within that node's radius and within scale_base^scale_index of its centre; nodes' recorded coverage counts, child lists, node count and each point's final address agree with that structure. Nodes that cover leaf_cutoff points or fewer or lie below min_res_index are leaves, and lone points are singletons or, if these are turned off, nodes. When build returns no worker is still adding to the tree.",
["schedules","inputs","configurations"],"for every point cloud (duplicates, clusters, outliers, tiny clouds), builder parameters, number of workers and order in which worker results arrive",
"Existing tests build two fixed data sets with whatever schedule rayon happened to produce; early termination of the collector depends on arrival order.",
["goko/src/covertree/builders.rs","goko/src/covertree/data_caches.rs","goko/src/covertree/node.rs","goko/src/covertree/tree.rs"],
[("tasks spawned per node, results collected over a channel until inserted == total_nodes","goko/src/covertree/builders.rs build"),("partitioning of covered points","goko/src/covertree/data_caches.rs"),("coverage counts on insert_child / insert_nested_child","goko/src/covertree/node.rs")],
[("total_nodes","nodes announced so far","goko/src/covertree/tree.rs CoverTreeParameters")],["reader traversal of the finished tree"])

p("C05","A seeded build does not depend on scheduling",
"Building the same data with the same parameters and an explicit seed gives the identical tree (same nodes, centres, radii, children, singletons and final addresses) for every number of workers, every order in which worker results arrive and every state of the process's own randomness. The seed given in a configuration file is the seed that is used.",
["schedules","configurations","inputs"],"for every seed, data set, worker count and arrival order; the process's entropy source varied as well",
"A test compares at most two runs on one machine; dependence on thread order or on hidden entropy shows only when both are controlled.",
["goko/src/covertree/builders.rs","goko/src/covertree/data_caches.rs"],
[("per node generator derived from seed and centre index","goko/src/covertree/builders.rs split_first/split_nearest"),("configuration parsing","goko/src/covertree/builders.rs from_yaml")],
[("rng_seed","user supplied seed","goko/src/covertree/tree.rs CoverTreeParameters")],["full structural dump of the tree"])

p("C06","A failing data source makes the build return an error, never hang or abort",
"If the point cloud reports an error for any access at any moment of a build, the build returns an error to its caller: it does not panic, abort the process, hang, or return a tree that lacks the affected points. If no access fails the build succeeds. A later build in the same process is unaffected by an earlier failed one.",
["fault_sequences","schedules"],"for every position of one or more read faults, transient or persistent, on whichever worker and schedule",
"No test makes the point cloud fail.",
["goko/src/covertree/builders.rs","goko/src/covertree/data_caches.rs","pointcloud/src/base_traits.rs"],
[("errors sent over the node channel","goko/src/covertree/builders.rs split_parallel"),("collector loop","goko/src/covertree/builders.rs build"),("parallel distance code collects errors","pointcloud/src/base_traits.rs distances_to_point")],
[],["result of build"])

p("C07","Nearest-neighbour queries are exact at all times",
"A k-nearest-neighbour query returns exactly min(k, number of points) distinct indexed points in non-decreasing distance order, each with its true distance, and no point left out is strictly closer than a returned one. A routing-neighbour query does the same over the points that are centres of nodes. This holds for every tree, query point and k, and while other threads query or the writer attaches plugins or publishes.",
["inputs","schedules","configurations"],"for every data set, tree parameters, query (on, near and far from the data), k and concurrent writer activity",
"Tests compare one MNIST tree with a handful of queries and no concurrent writer.",
["goko/src/covertree/tree.rs","goko/src/covertree/node.rs","goko/src/covertree/query_tools/knn_query_heap.rs","goko/src/covertree/query_tools/query_items.rs"],
[("knn loop over child and singleton heaps with pruning bound","goko/src/covertree/tree.rs knn"),("heap bookkeeping","goko/src/covertree/query_tools/knn_query_heap.rs")],
[],["knn result vs brute force"])

p("C08","Queries report failures instead of returning wrong or partial answers",
"If an access to the point cloud fails during a k-nearest-neighbour, routing-neighbour, path or known-path query, the query returns an error; it never panics and never returns a success that differs from the answer without the fault. The same holds when the writer goes away while or before the query runs: the answer is complete or an error. A failed query leaves the reader fully usable.",
["fault_sequences","schedules"],"for every position and duration of read faults inside a query and every moment of writer teardown",
"No test injects a point cloud failure or drops the writer under a running query.",
["goko/src/covertree/tree.rs","goko/src/covertree/node.rs","pointcloud/src/base_traits.rs","goko/src/errors.rs"],
[("error propagation from node level brute force","goko/src/covertree/tree.rs knn / greedy_knn_nodes / path / known_path")],
[],["result of the query vs fault free answer"])

p("C09","Paths are true root-to-leaf descents consistent with where points are stored",
"The path of a query point starts at the root, each step goes to a child of the previous node whose radius of scale_base^scale_index contains the query (the nearest such child, or the first one, as configured), carries the true distance, and ends only where no child contains it. The known path of an indexed point is the chain of nodes from the root to the node that stores it and every such node covers the point; unknown indexes are reported as not in the tree. Both hold while the writer attaches plugins or publishes.",
["inputs","schedules","configurations"],"for every tree, query point, indexed point and concurrent writer activity",
"Tests check a few MNIST points on a quiescent tree.",
["goko/src/covertree/tree.rs","goko/src/covertree/node.rs"],
[("path descent","goko/src/covertree/tree.rs path"),("child selection","goko/src/covertree/node.rs nearest_covering_child/first_covering_child"),("final address map","goko/src/covertree/tree.rs known_path")],
[],["path/known_path results vs reference descent"])

p("C10","Attached plugins cover every node, conserve their totals, and appear atomically",
"Once attaching a plugin or summary has returned, every node the plugin applies to carries it for all readers, and what each node carries equals the value recomputed from the points that node covers: label and metadata summaries, covered index lists, bucket counts and Gaussian moments add up over children and singletons to exactly the node's points. While it is being attached, a reader that sees it on a node sees a complete value, also sees it on that node's children, and sees it at tree level only when all nodes have it. Plugins attached earlier, node structure and later publishes are unaffected.",
["schedules","inputs","histories"],"for every tree, labelling, order of attaching plugins and interleaving with readers",
"Tests attach plugins on a quiescent tree and look at a few nodes.",
["goko/src/covertree/tree.rs","goko/src/plugins/mod.rs","goko/src/plugins/labels.rs","goko/src/plugins/utils.rs","goko/src/plugins/discrete/categorical.rs","goko/src/plugins/discrete/dirichlet.rs","goko/src/plugins/gaussians/diag_gaussian.rs","pointcloud/src/summaries/mod.rs"],
[("layers updated and published from the leaves up","goko/src/covertree/tree.rs add_plugin"),("recursive node components","goko/src/plugins"),("tree level plugin inserted last","goko/src/covertree/tree.rs add_plugin")],
[],["node and tree plugin lookups during and after attach"])

p("C11","Bulk queries equal one-by-one queries, in order, for any scheduling",
"A bulk query over a list returns one result per input, in input order, each equal to what the single query would return for that input, for every list length, number of workers and schedule. An input that fails yields its error in its own position and does not affect the others. Concurrent publishes by the writer do not change the results.",
["schedules","inputs","fault_sequences"],"for every list (including empty and longer than the chunk size), worker count, steal pattern and failing position",
"There is no test of ordering under work stealing nor of failing or empty inputs.",
["goko/src/query_interface/mod.rs"],
[("parallel chunks each with its own reader, results reassembled","goko/src/query_interface/mod.rs")],
[],["bulk results vs single results"])

p("C12","A saved tree loads back as the same tree",
"Saving a tree and loading it with the same point cloud gives a tree with the same parameters relevant to queries, root, layers, nodes, children, singletons, radii, coverage counts and final addresses, and hence the same answers to every query. This holds for every tree and parameter choice and every scheduling of the parallel load, and saving never changes the tree being saved.",
["inputs","schedules","configurations"],"for every tree shape and schedule of the layer-parallel loader, with short reads and interrupted system calls underneath",
"One test round-trips one tree in one schedule and looks at counts.",
["goko/src/utils.rs","goko/src/covertree/tree.rs","goko/src/covertree/layer.rs","goko/src/covertree/node.rs"],
[("protobuf encode/decode","goko/src/covertree/node.rs save/load"),("layer parallel load and final index rebuild","goko/src/covertree/tree.rs load/refresh_final_indexes")],
[],["structural dump before and after"])

p("C13","Saving over an existing tree file is atomic and reports failure",
"If the process or machine crashes at any point while a tree is saved to a path, the path afterwards holds either the complete previous file or the complete new one, and once the save has returned successfully it holds the new one. If a file operation fails during the save (full disk, I/O error), the save returns an error and the path still holds a complete tree file, the previous or the new one. Short writes and interrupted calls never corrupt the result.",
["crash_points","fault_sequences"],"for every crash point, every loss, tearing or reordering of unsynced writes, and every failing file operation",
"No test crashes or fails a save.",
["goko/src/utils.rs"],
[("file handling of save","goko/src/utils.rs save_tree")],
[],["content of the path after a simulated crash; result of save"])

p("C14","Loading a damaged or missing tree file is an error, not a crash or a bad tree",
"Loading a tree from a path that is missing, not a file, unreadable or empty, or with a point cloud that lacks points of the tree, returns an error. A file truncated anywhere gives an error (or the original tree, if nothing of the tree was lost), and an otherwise damaged file gives an error or a tree that is sound: no stored reference leads to a node that is not there or a point that the point cloud does not have, and queries on it work. If reading fails part way loading returns an error. Loading never panics or hangs.",
["fault_sequences","inputs"],"for every truncation point, byte corruption, and read error position",
"Tests only load intact files.",
["goko/src/utils.rs","goko/src/covertree/tree.rs","goko/src/covertree/node.rs"],
[("decode and reconstruct","goko/src/utils.rs load_tree, goko/src/covertree/tree.rs load")],
[],["result of load, then traversal and queries on any tree returned"])

p("C15","Each HTTP request gets its own correct answer",
"For every request on every connection the server's response carries the answer for exactly that request's point and parameters: k-nearest, routing neighbours, path, parameters and tracking requests agree with the tree's own answers, in request order per connection. This holds for any splitting or chunked encoding of the bytes on the wire, any mix of connections, and any earlier, concurrent, cancelled or failed request. A malformed request (unknown route, bad query, bad or missing body) yields an error for that request only and never a successful answer.",
["schedules","inputs","fault_sequences"],"for every interleaving of connections and tasks, fragmentation of the byte stream, and mixture of valid, malformed, cancelled and reset requests",
"serve_goko has no tests at all.",
["serve_goko/src/http/service.rs","serve_goko/src/parsers/mod.rs","serve_goko/src/parsers/msgpack_dense.rs","serve_goko/src/api/mod.rs","serve_goko/src/api/knn.rs","serve_goko/src/api/path.rs","serve_goko/src/http/message.rs"],
[("one actor per connection, body accumulated then parsed","serve_goko/src/parsers/mod.rs poll_point"),("request routing","serve_goko/src/http/service.rs parse_http")],
[],["HTTP responses vs reference model"])

p("C16","The server always answers and one client cannot wedge the others",
"Every request whose bytes arrive completely is answered, or its connection is closed, within a bounded number of scheduler steps once delivery stops being delayed. A client that sends garbage, wrong-sized points or oversized numbers, stalls mid-request, disconnects at any byte or abandons a response can never make the server panic, spin, deadlock, stop answering other connections, or lose the shared trackers. After all clients are gone the server has no leftover work.",
["schedules","fault_sequences","inputs"],"for every fault sequence on the connections and every task schedule",
"serve_goko has no tests at all.",
["serve_goko/src/http/service.rs","serve_goko/src/parsers/mod.rs","serve_goko/src/core/internal_service.rs","serve_goko/src/api/mod.rs","serve_goko/src/api/tracker.rs"],
[("per connection actor and tracker actors over channels","serve_goko/src/core/internal_service.rs"),("body polling","serve_goko/src/parsers/mod.rs")],
[],["progress of requests in the simulator, panics, leftover tasks"])

p("C17","Trackers record each accepted point exactly once, in one order",
"Each successfully answered track request adds its point's path exactly once to every window of the named (or default) tracker and to no other tracker; adding an existing window reports failure and leaves it untouched, and naming an unknown tracker or window reports unknown. Each tracker's history is linearizable across clients: a statistics request reflects every tracked point acknowledged before it was sent and agrees with replaying some real-time-consistent order sequentially. A window of size w reflects exactly the last w points of that order (size 0: all).",
["schedules","histories","fault_sequences"],"for every set of concurrent clients, request order, cancellation and task schedule",
"serve_goko has no tests; the library tracker test replays one short sequence.",
["serve_goko/src/api/tracker.rs","serve_goko/src/api/mod.rs","serve_goko/src/core/internal_service.rs","goko/src/plugins/discrete/tracker.rs"],
[("one actor per tracker name","serve_goko/src/core/internal_service.rs"),("tracker map guarded by a lock","serve_goko/src/api/mod.rs process"),("sliding window","goko/src/plugins/discrete/tracker.rs add_path")],
[],["responses, sequence_len and KL statistics vs model"])

p("C18","The load metric equals the number of requests in flight",
"At every moment the load reported by an HTTP service equals the number of requests handed to it whose response future has neither completed nor been dropped: it never goes below zero or wraps, counts requests that fail to be delivered only until their error is returned, and is zero when nothing is outstanding.",
["schedules","fault_sequences","histories"],"for every sequence of submit, poll, complete, fail and cancel across tasks",
"serve_goko has no tests; the error needs a response that is polled before it is ready, or is dropped.",
["serve_goko/src/http/message.rs","serve_goko/src/http/service.rs","serve_goko/src/core/internal_service.rs"],
[("in flight counter","serve_goko/src/http/message.rs ResponseFuture")],
[("in_flight","number of outstanding requests","serve_goko/src/http/service.rs")],["Load::load after every simulated step"])

p("C19","A windowed tracker equals recomputing from the last window of points",
"After any history of observed paths, a library tracker's recorded sequence, per-node observation counts and divergence statistics equal those obtained from a fresh tracker fed only the paths still in its window, for every window size including unlimited. Evidence for nodes that left the window is gone completely, and nothing is counted twice when paths repeat, share prefixes or arrive while the tree's writer is active or gone.",
["histories","schedules","configurations"],"for every history of paths, window size and interleaving with the writer",
"The unit test feeds one short sequence below the window size.",
["goko/src/plugins/discrete/tracker.rs","goko/src/plugins/discrete/categorical.rs","goko/src/plugins/discrete/dirichlet.rs"],
[("add evidence then evict oldest","goko/src/plugins/discrete/tracker.rs add_path"),("categorical add/remove","goko/src/plugins/discrete/categorical.rs")],
[("running_evidence","counts per node inside the window","goko/src/plugins/discrete/tracker.rs"),("sequence","paths inside the window","goko/src/plugins/discrete/tracker.rs")],["tracker accessors vs fresh replay"])

p("C20","Parallel distance computation equals the sequential one and never hides errors",
"Asking a point cloud for the distances from a point to a list of indexes returns, in list order, exactly the single-pair distances, for every list length and scheduling of the workers that share the computation. If any access fails the whole call returns an error, whichever worker met it; it never returns made-up distances. Likewise the moments and the dense matrix of a list of points are those of the points, or an error.",
["schedules","fault_sequences","inputs"],"for every list length around the parallel threshold, steal pattern and failing positions",
"Tests compute a few dozen distances, below the parallel threshold, with no failing access.",
["pointcloud/src/base_traits.rs","pointcloud/src/glued_data_cloud.rs","pointcloud/src/data_sources/memmap_ram.rs"],
[("chunked parallel loop with shared error slot","pointcloud/src/base_traits.rs distances_to_point")],
[],["returned vector vs pairwise distances"])

p("C21","Loaded data is exactly what the files contain, or loading reports an error",
"A point cloud loaded from data files presents exactly what is in them: one point per whole record with the same values, the labels of the label files at the same positions (a negative label in a csv, or a one-hot row without a hot entry, means unlabeled), parts glued together in the order given (for a pattern: of the file names) with every point of every part at a stable index, also after reindexing, and names that lead back to a point of that name. If a file or configuration cannot be opened, read, mapped, unpacked or parsed, is missing, or its size does not fit the declared dimension or count, loading returns an error rather than panicking or presenting different data, and an index beyond the end is an error or has no label. Dropping the data, or failing to load it, releases everything that was opened or mapped, and short reads and loaders working at the same time change nothing.",
["fault_sequences","inputs","configurations"],"for every file layout, number of parts, I/O fault position and short read pattern",
"Tests load a few small well-formed files.",
["goko/src/utils.rs","pointcloud/src/data_sources/memmap_ram.rs","pointcloud/src/data_sources/memmapf32/mod.rs","pointcloud/src/data_sources/memmapf32/unix.rs","pointcloud/src/loaders/csv_loaders.rs","pointcloud/src/loaders/yaml_loaders.rs","pointcloud/src/glued_data_cloud.rs","pointcloud/src/label_sources/mod.rs"],
[("memory mapped f32 files","pointcloud/src/data_sources/memmapf32/unix.rs"),("gluing parts with an index map","pointcloud/src/glued_data_cloud.rs"),("CSV and yaml loaders","pointcloud/src/loaders")],
[],["values, labels, names and mappings vs what was written"])

p("C22","Distance functions agree with their mathematical definition",
"For every pair of dense or sparse vectors the provided L1 and L2 metrics return the L1/L2 distance up to floating point rounding, are symmetric, zero exactly on equal inputs, and treat a sparse vector as its dense expansion.",
["inputs"],"for all vectors of equal dimension",
"Tests sample a few vectors.",
["pointcloud/src/metrics/l2_f32.rs","pointcloud/src/metrics/l1_f32.rs","pointcloud/src/metrics/l2_misc.rs","pointcloud/src/metrics/l1_misc.rs"],
[("SIMD and sparse merge loops","pointcloud/src/metrics")])

p("C23","Statistical formulas of the plugins match their definitions",
"KL divergences, log-likelihoods and expectations computed by the categorical, Dirichlet and Gaussian plugins equal their textbook definitions for all valid parameters, are non-negative where the definition is, and are finite on their domain.",
["inputs"],"for all parameter vectors",
"Tests sample a few parameters.",
["goko/src/plugins/discrete/categorical.rs","goko/src/plugins/discrete/dirichlet.rs","goko/src/plugins/gaussians/diag_gaussian.rs"],
[("closed form expressions","goko/src/plugins")])

p("C24","A trained baseline describes random sequences of the tree's points, or errs",
"Training a Dirichlet baseline runs the requested number of sequences, each a random choice of distinct points of the tree, and reports statistics at every sampled length: a sequence of all points ends with exactly the statistics of all points, early samples are ones that single points or pairs can give, and lengths between or beyond samples are interpolated linearly. Whatever the order in which the sequences run, and while the writer is active. If the data cannot be read or the writer goes during training, training returns an error; neither it nor asking for the statistics of any length panics.",
["schedules","fault_sequences","configurations"],"for every scheduling of the training workers, failing data access, random draw and configuration",
"The unit tests never train a baseline against failing data, nor compare what it says with the tree.",
["goko/src/plugins/discrete/baseline.rs","goko/src/plugins/discrete/tracker.rs"],
[("parallel sequences over clones of a reader","goko/src/plugins/discrete/baseline.rs train"),("interpolation between samples","goko/src/plugins/discrete/baseline.rs stats")],
[],["KLDivergenceBaseline fields and stats(i)"])

p("C25","A reader's views of the tree all describe the tree that was built",
"Everything a reader shows of the tree's structure (layers and their node lists, lookups of nodes and their children, node counts, the scale range, fractal dimensions of nodes and layers) describes the one tree that was built, on every reader and its clones, while other threads read and the writer attaches plugins, publishes or rebuilds the final addresses. Once the writer has gone a view still describes that tree or says that there is nothing (no node, an empty layer, not a number); it never panics.",
["schedules","inputs","configurations"],"for every tree, choice of view and interleaving of readers with the writer's activity and its end",
"The unit tests look at two fixed trees from one thread, with the writer idle.",
["goko/src/covertree/tree.rs","goko/src/covertree/layer.rs","goko/src/covertree/node.rs"],
[("layer and node access of a reader","goko/src/covertree/tree.rs CoverTreeReader"),("layer views","goko/src/covertree/layer.rs CoverLayerReader"),("fractal dimensions over several layers","goko/src/covertree/tree.rs")],
[],["results of the reader's structural accessors"])

p("C26","Distributions of nodes and trackers answer and draw as their counts say",
"The categorical and Dirichlet distributions attached to a node, and what becomes of a prior by weighting it and adding observations or evidence, are those of the counts of points below each child and held by the node: probabilities, their logarithms, and random draws, which only give outcomes with weight and give them in proportion, so that a walk drawn from the root ends at a node that holds a point; an empty distribution gives no outcome. After any history of paths, a tracker's divergence at each node and over the tree is that of prior and posterior with exactly the paths in its window, its statistics are those of these divergences, and comparing its evidence with a node's categorical gives their divergence, or none where one has an outcome the other lacks. While other threads draw and track and the writer attaches, publishes or goes away; nothing panics.",
["schedules","inputs","histories","configurations"],"for every tree, random draw, history of paths and window, change of a prior, and interleaving with the writer's activity and its end",
"The unit tests compare a few distributions of one or two outcomes; none draws from one, and none uses those of a real tree or of a history.",
["goko/src/plugins/discrete/categorical.rs","goko/src/plugins/discrete/dirichlet.rs","goko/src/plugins/discrete/tracker.rs"],
[("drawing in proportion","goko/src/plugins/discrete sample"),("posterior divergence at a node","goko/src/plugins/discrete/dirichlet.rs posterior_kl_divergence"),("divergence of categoricals","goko/src/plugins/discrete/categorical.rs kl_divergence"),("tracker statistics","goko/src/plugins/discrete/tracker.rs kl_div_stats, kl_div")],
[],["probability vectors, draws and divergences"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
