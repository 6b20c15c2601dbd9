#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
I="include/common_robotics_utilities/"
S="src/common_robotics_utilities/"
P=[]
def p(id,title,st,over,q,why,files,mech):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
IN=["inputs"]
p("C01","Fixed-size values survive serialization, in native and network order",
 "Serializing any fixed-size value (integers, floating point of any bit pattern, bools, Eigen vectors/quaternions/isometries) appends exactly its size to the buffer, leaves what was already in the buffer untouched, and deserializing at that offset returns the identical bits and the same byte count. The network variants put the bytes most-significant-first whatever the host order, and the in-place variant writes only the bytes at the given position and throws when they would not fit.",
 IN,"every bit pattern of every supported scalar width, every existing buffer prefix and offset",
 "No test covers serialization at all; a byte-order or offset slip only shows for particular values.",
 [I+"serialization.hpp",S+"serialization.cpp"],[("SerializeMemcpyable/DeserializeMemcpyable",I+"serialization.hpp"),("SerializeNetworkMemcpyable*",I+"serialization.hpp"),("Eigen serializers",S+"serialization.cpp")])
p("C02","Strings, vectors, maps, sets and pairs survive serialization",
 "Serializing a string, vector-like, map-like, set-like or pair container reports exactly the number of bytes it appended, and deserializing at that offset reads exactly that many bytes and returns an equal container, also when other data precedes and follows it. Objects serialized one after the other are read back one after the other.",
 IN,"all element values, all container sizes up to the bound, all prefix offsets",
 "Existing tests never serialize a container; offset errors need a non-zero offset and a following object to show.",
 [I+"serialization.hpp"],[("SerializeVectorLike/MapLike/Pair/String and counterparts",I+"serialization.hpp")])
p("C03","Deserializing arbitrary bytes never leaves the buffer",
 "Deserializing any byte buffer at any offset either throws a standard exception or returns a value whose reported byte count lies inside the buffer. It never reads outside the buffer, never writes outside its own allocations, and never aborts the process.",
 IN,"all byte contents up to the size bound and all starting offsets, including lengths whose byte size overflows 64 bits",
 "Tests only feed nothing or well-formed data; the failing inputs are corrupt lengths near 2^64.",
 [I+"serialization.hpp",S+"serialization.cpp"],[("Deserialize* bounds checks",I+"serialization.hpp"),("DeserializeVectorXd/MatrixXd",S+"serialization.cpp")])
p("C04","Library objects survive serialization",
 "Graphs, search results, grid sizes, dense voxel grids, spatially hashed voxel grids and RRT trees deserialize to an object that answers every query as the serialized one did, with matching byte counts. Trees and graphs whose linkage is invalid are refused on load.",
 IN,"all node/edge/voxel values and structures up to the size bound",
 "Tests save and load at most one planner roadmap; a lost field needs a non-default value in that field.",
 [I+"simple_graph.hpp",I+"simple_graph_search.hpp",I+"voxel_grid.hpp",I+"dynamic_spatial_hashed_voxel_grid.hpp",I+"simple_rrt_planner.hpp"],
 [("Graph::Serialize/Deserialize",I+"simple_graph.hpp"),("DijkstrasResult::Serialize",I+"simple_graph_search.hpp"),("VoxelGridBase::BaseSerialize",I+"voxel_grid.hpp"),("SimpleRRTPlannerTree::Serialize",I+"simple_rrt_planner.hpp")])
p("C05","Base64 encoding is standard and decodes back to the same bytes",
 "Encoding any byte string yields the RFC 4648 text: length a multiple of four, only alphabet characters, padding only at the end, and the right six bits in each place. Decoding that text returns exactly the original bytes.",
 IN,"all byte strings up to the length bound (all residues mod 3)",
 "There is no base64 test.",
 [I+"base64_helpers.hpp",S+"base64_helpers.cpp"],[("Encode/Decode",S+"base64_helpers.cpp")])
p("C06","Base64 decoding of arbitrary text is safe",
 "Decoding any character string, including characters outside the alphabet and with the high bit set, either throws a standard exception or returns bytes. It never reads or writes outside its tables and buffers.",
 IN,"all strings up to the length bound over all 256 character values",
 "There is no base64 test; the bad reads need characters >= 0x80 or misplaced padding.",
 [S+"base64_helpers.cpp"],[("Decode",S+"base64_helpers.cpp")])
p("C07","Compression helpers return exactly the compressed input",
 "Decompressing the compressed form of any byte string returns that byte string, however the codec chooses to split its work over calls. A codec failure is reported as an exception, never as silently truncated data.",
 ["inputs","fault_sequences"],"all inputs up to the bound, all ways a conforming codec may consume and produce bytes per call, a codec error at any call",
 "Not tested; chunk-boundary and error behaviour depend on the codec's per-call progress.",
 [I+"zlib_helpers.hpp",S+"zlib_helpers.cpp"],[("CompressBytes/DecompressBytes",S+"zlib_helpers.cpp")])
p("C08","Static work ranges partition the range exactly",
 "For any range and number of threads, the per-thread ranges are consecutive, start at the range start, end at the range end, never overlap or leave a gap, and differ in size by at most one. Invalid arguments throw.",
 IN,"all 64-bit range bounds and thread counts (the difference of the bounds representable)",
 "Tests use a few small ranges; off-by-one and remainder errors depend on range mod threads.",
 [I+"parallelism.hpp"],[("CalcStaticThreadRangeStartAndEnd",I+"parallelism.hpp")])
p("C09","Parallel loops run every index exactly once",
 "Every parallel-for variant and back end calls the functor exactly once for each index in the requested range and for nothing else, whatever the start of the range, the requested and the actually granted number of threads and the scheduling. When it returns, all calls have finished.",
 ["inputs","schedules","configurations"],"all range bounds within the span bound, all thread counts up to the bound, all numbers of granted threads, all interleavings of worker start and completion",
 "Tests run ranges that start at zero on one machine's schedule with all threads granted.",
 [I+"parallelism.hpp"],[("StaticParallelFor*/DynamicParallelFor*",I+"parallelism.hpp")])
p("C10","Parallel loops: thread numbers are in range and exceptions reach the caller",
 "The thread number given to the functor is in [0, threads) and is never in use by two concurrently running calls. If any call throws, the loop throws one of the thrown exceptions after all running calls have finished, and otherwise it throws nothing.",
 ["inputs","schedules","configurations","fault_sequences"],"all range/thread configurations within the bound, any subset of calls throwing, all interleavings",
 "Which call throws while which others run is schedule dependent; a test sees one schedule.",
 [I+"parallelism.hpp"],[("ThreadNumberKeeper, exception_ptr handling",I+"parallelism.hpp")])
p("C11","Parallel algorithms are free of data races and agree with serial ones",
 "The parallel form of nearest-neighbour search, Hausdorff distance, pairwise distance matrix, hierarchical clustering, k-means and roadmap construction never lets two workers access the same memory without synchronisation when one of them writes. Its result equals the serial result (for nearest neighbours up to the choice among equal distances) for every granted number of threads.",
 ["inputs","schedules","configurations"],"all inputs within the size bound, all requested and granted thread counts within the bound",
 "Tests run on an otherwise idle machine where every requested thread is granted, and races rarely corrupt a result.",
 [I+"simple_knearest_neighbors.hpp",I+"simple_hausdorff_distance.hpp",I+"math.hpp",I+"simple_hierarchical_clustering.hpp",I+"simple_prm_planner.hpp"],
 [("GetKNearestNeighborsParallel",I+"simple_knearest_neighbors.hpp"),("per-thread storage reductions",I+"simple_hierarchical_clustering.hpp")])
p("C12","Graph edits keep the edge lists of both ends consistent",
 "After any sequence of node additions and edge additions (one-way or two-way), every out-edge of a node is an in-edge of its target with the same weight and vice versa, and the edges present are exactly the ones added. An operation refused for a bad index leaves the graph unchanged.",
 ["inputs","histories"],"all operation sequences and weights within the bound, all 64-bit indices",
 "Tests build a handful of fixed graphs.",
 [I+"simple_graph.hpp"],[("AddEdgeBetweenNodes/AddEdgesBetweenNodes/RemoveEdges",I+"simple_graph.hpp")])
p("C13","A graph overlay behaves like a private copy of its base",
 "Reading and editing an overlay gives the same results as reading and editing a copy of the base graph. The base graph is never changed by operations on the overlay.",
 ["inputs","histories"],"all base graphs, edit sequences, weights and indices within the bound",
 "Tests only use an overlay indirectly in one planner query.",
 [I+"simple_graph.hpp"],[("NonOwningGraphOverlay",I+"simple_graph.hpp")])
p("C14","Graph linkage check accepts exactly the well-linked graphs",
 "The linkage check returns true exactly when every edge's indices are valid, belong to the node that stores it, are not self-loops, and have the matching edge at the other end.",
 IN,"all graphs within the size bound with arbitrary (also invalid) stored indices",
 "Tests only pass well-formed graphs through it.",
 [I+"simple_graph.hpp"],[("CheckGraphLinkage",I+"simple_graph.hpp")])
p("C15","Pruning a graph removes exactly the requested nodes",
 "Pruning keeps every other node's value and every edge between kept nodes with its weight, renumbers nodes in order, drops all edges touching removed nodes, and the result is well linked. Serial and parallel pruning agree and the input graph is unchanged.",
 ["inputs","configurations"],"all graphs and removal sets within the bound",
 "Tests prune at most one fixed graph.",
 [I+"simple_graph.hpp"],[("PruneGraph",I+"simple_graph.hpp")])
p("C16","Dijkstra distances and predecessors are right",
 "For any graph with non-negative edge weights, the reported distance of each node is the length of a shortest directed path from that node to the start index of the search (infinite exactly when there is none), and following the reported predecessors from the node gives such a path.",
 IN,"all digraphs within the node bound, all weights from an exactly representable range including zero and absent edges",
 "Tests run a few fixed roadmaps; wrong relaxation order needs particular weight ties.",
 [I+"simple_graph_search.hpp"],[("PerformDijkstrasAlgorithm",I+"simple_graph_search.hpp")])
p("C17","A* over graphs returns a cheapest valid path",
 "A* over a graph returns a path that starts at a given start, ends at a given goal, and follows existing edges (in lazy mode only edges the validity function accepted, at the cost the distance function gave), with a reported cost equal to the sum of its edges and, for an admissible heuristic and equal start costs, minimal. It returns no path exactly when none exists, whether or not queue duplicates are limited.",
 ["inputs","configurations"],"all digraphs within the node bound, weights, goal sets, edge validity outcomes, consistent and inconsistent admissible heuristics",
 "Tests use small fixed grids; re-expansion errors need an inconsistent heuristic.",
 [I+"simple_graph_search.hpp",I+"simple_astar_search.hpp"],[("PerformAstarSearch/PerformLazyAstarSearch",I+"simple_graph_search.hpp")])
p("C18","Generic A* returns a cheapest valid path",
 "The generic A* search returns a sequence of states from a start to a state satisfying the goal test, each generated from its predecessor and accepted by the edge check, with a cost equal to the sum of the edge costs plus the start cost, and minimal for an admissible heuristic and equal start costs. It returns an empty path and infinite cost exactly when no goal is reachable.",
 ["inputs","configurations"],"all successor structures within the state bound, costs, validity outcomes and admissible heuristics, both queue modes",
 "As for graph search, tests sample a few instances.",
 [I+"simple_astar_search.hpp"],[("PerformAstarSearch",I+"simple_astar_search.hpp")])
p("C19","Nearest-neighbour queries return the K smallest distances",
 "A K-nearest query returns min(K, number of items) distinct indices (in ascending order of distance when there are more items than K), each with the distance the function gives for it, and no unreported item is closer than a reported one. K = 0 gives an empty result and negative K throws; the serial, parallel and graph-adapter forms agree on the distances.",
 ["inputs","configurations","schedules"],"all distance values (any non-NaN double), item counts and K within the bound, all granted thread counts",
 "Tests compare on random data with distinct distances and all threads granted.",
 [I+"simple_knearest_neighbors.hpp",I+"simple_graph.hpp"],[("GetKNearestNeighborsInRangeSerial/Parallel",I+"simple_knearest_neighbors.hpp"),("GraphKNNAdapter",I+"simple_graph.hpp")])
p("C20","The Hausdorff distance is the largest distance to the closest element",
 "The Hausdorff distance from a first to a second set, serial or parallel, by function or by matrix, is the largest, over the elements of the first set, of the distance to the closest element of the second set. Empty sets and a matrix of the wrong size are refused.",
 ["inputs","configurations"],"all distance tables within the size bound",
 "Tests use a few fixed sets.",
 [I+"simple_hausdorff_distance.hpp"],[("ComputeDistanceSerial/Parallel",I+"simple_hausdorff_distance.hpp")])
p("C21","Dynamic time warping cost is the minimum over alignments",
 "The dynamic-time-warping distance equals the minimum, over all monotone alignments that match first to first and last to last, of the sum of pair distances.",
 IN,"all distance tables within the size bound, including ties",
 "There is no DTW test; the wrong branch needs a tie between two of the three predecessors.",
 [I+"simple_dtw.hpp"],[("SimpleDTW::EvaluateWarpingCost",I+"simple_dtw.hpp")])
p("C22","Voxel grids store each voxel independently",
 "In-bounds grid indices map one-to-one onto the storage in both directions; setting one voxel changes that voxel only; the last value written is the one read. Access outside the grid is reported and has no effect, and every mutable access is announced with the index that is accessed and can be vetoed.",
 ["inputs","histories"],"all grid dimensions within the bound, all 64-bit indices, all value sequences within the bound",
 "Tests write and read a full fixed grid in order and never observe the access callback's argument.",
 [I+"voxel_grid.hpp"],[("GridSizes::GetDataIndex/GetGridIndexFromDataIndex",I+"voxel_grid.hpp"),("GetIndexMutable/SetIndex/OnMutableAccess",I+"voxel_grid.hpp")])
p("C23","Grid locations and indices convert consistently",
 "The location of a cell, mapped back, gives that cell's index; a location inside the grid maps to the cell whose box contains it, and a location outside maps to no in-bounds index. Cells along an axis are consecutive and evenly spaced.",
 IN,"all cells of grids within the size bound, all locations expressible in the bounded dyadic range, dyadic cell sizes",
 "Tests check one resolution at cell centres.",
 [I+"voxel_grid.hpp"],[("LocationToGridIndex/GridIndexToLocation",I+"voxel_grid.hpp")])
p("C24","Spatially hashed grids behave like an unbounded grid of defaults",
 "After any sequence of cell and chunk writes, each location reads back the last value written to its cell or chunk; if there was none, it reads the default inside a written chunk and is reported as not found elsewhere. Every finite location can be written, and writing one cell leaves all other cells as they were. Only chunks written to are allocated, and reads allocate nothing. Every mutable access is announced with its location in the grid frame and can be vetoed.",
 ["inputs","histories"],"all write/read sequences within the bound at symbolic locations around several chunks, dyadic resolutions",
 "Tests write every cell of a few chunks once.",
 [I+"dynamic_spatial_hashed_voxel_grid.hpp"],[("SetLocation/GetLocationImmutable/AllocateChunkAt",I+"dynamic_spatial_hashed_voxel_grid.hpp")])
p("C25","Optional and variant values hold what was put in and destroy it once",
 "After any sequence of constructions, copies, moves, assignments and resets of the optional and variant wrappers, each reports and returns the value last stored and access to a missing value throws. Every contained object is constructed and destroyed exactly once, also when a contained copy throws part way.",
 ["histories","fault_sequences"],"all operation sequences within the bound over all engaged/disengaged states, a throwing copy at any point",
 "Tests do a linear sequence without throwing copies and do not count destructions.",
 [I+"maybe.hpp"],[("OwningMaybe/ReferencingMaybe/TaggedUnion",I+"maybe.hpp")])
p("C26","Numeric helpers stay within their stated range",
 "A random index drawn from any unit-interval random value lies in the requested range; clamping returns the nearest value of the interval and throws for an empty interval; spreading moves a value between two thresholds to the threshold on its side of the midpoint and leaves every other value; setting a bit changes that bit only and reading returns it.",
 IN,"all doubles in [0,1), all 64-bit interval bounds, all doubles for clamping, all words and bit positions",
 "Tests draw a sample of random numbers; the failing ones are the last double before 1.",
 [I+"utility.hpp"],[("GetUniformRandomInRange/GetUniformRandomIndex/ClampValue/SetBit/GetBit",I+"utility.hpp")])
p("C27","Collection helpers compute what they say",
 "Subset and equality tests compare collections with multiplicity whatever their order, look-ups return the stored value or else the given default, key and pair extraction return exactly the map's content in order, building a map from keys and values returns it (the last value of a repeated key) and refuses lists of different lengths, and the substring test holds exactly when every string contains it.",
 IN,"all collections within the size bound",
 "Tests cover a few helpers on fixed collections.",
 [I+"utility.hpp"],[("collection helpers",I+"utility.hpp")])
p("C28","Path shortcutting keeps the ends and uses only validated edges",
 "A shortcut or smoothed path starts and ends at the original ends; every consecutive pair in it is either a consecutive pair of the original path or was accepted by the edge validity function. A shortcut is only applied when its edge was accepted, and the iteration limits are respected.",
 ["inputs","histories"],"all random draws, all edge-validity outcomes, all path lengths and iteration limits within the bound",
 "Tests run one random seed in one environment.",
 [I+"path_processing.hpp"],[("AttemptShortcut/ShortcutSmoothPath",I+"path_processing.hpp")])
p("C29","Path resampling keeps every waypoint and bounds the step",
 "A resampled path contains the original waypoints in order with the original ends, and adds only interpolations between neighbours. No two consecutive states are further apart than the requested spacing for a distance that interpolates linearly.",
 IN,"all path lengths, integer distances and spacings within the bound",
 "Tests resample one path.",
 [I+"path_processing.hpp"],[("ResamplePath",I+"path_processing.hpp")])
p("C30","Task planning returns executable, bounded traces",
 "A planned or executed task sequence starts from the given state, each step applies a primitive that accepts the state and continues from an outcome that the primitive actually produced, it stops when the task is complete, and it never exceeds the execution limit. The planned sequence is a cheapest one when the estimate of the remaining cost is consistent or absent. A task that no sequence of outcomes can complete is reported as such, and a trace that ends in an incomplete state only does so because the limit was reached.",
 ["inputs","histories"],"all primitive readiness/outcome tables within the state bound and all outcome choices",
 "Tests run one pick-and-place domain.",
 [I+"simple_task_planner.hpp"],[("PlanTaskSequence/PerformSingleTaskExecution",I+"simple_task_planner.hpp")])
p("C31","RRT planning builds well-linked trees and genuine solution paths",
 "Every state added by the single- or multi-path RRT planner is linked to the parent its propagation named, the tree always passes the linkage check, and each returned path runs from a root through parent links to a state that passed the goal test. Omitted optional callbacks are simply not called, and the statistics count what happened.",
 ["inputs","histories"],"all sampling, nearest-neighbour, propagation, goal and termination outcomes within the iteration bound",
 "Tests run a few seeded problems with all callbacks given.",
 [I+"simple_rrt_planner.hpp"],[("RRTPlanMultiPath/RRTPlanSinglePath",I+"simple_rrt_planner.hpp")])
p("C32","Bidirectional RRT planning joins the two trees correctly",
 "Each path returned by the bidirectional planner is a root path of the start tree followed by a reversed root path of the goal tree whose meeting states were accepted as connected. Both trees stay well linked, and omitted optional callbacks are not called.",
 ["inputs","histories"],"all sample-type, tree-sample, neighbour, propagation, connection and tree-swap outcomes within the iteration bound",
 "Tests run a few seeded problems.",
 [I+"simple_rrt_planner.hpp"],[("BiRRTPlanMultiPath",I+"simple_rrt_planner.hpp")])
p("C33","RRT propagation and sampling helpers honour their limits",
 "The extend and connect helpers only emit states whose edge from the parent they name was accepted, stop at the first rejected edge, step no further than the step size, and end at the target when it is within reach. Goal-bias and tree-selection helpers return one of the offered choices according to the random draw, and invalid parameters throw.",
 ["inputs","histories"],"all integer positions, step sizes, validity outcomes and random draws within the bound",
 "Tests use one step size and free space.",
 [I+"simple_rrt_planner.hpp"],[("MakeKinematic*PropagationFunction",I+"simple_rrt_planner.hpp")])
p("C34","Tree linkage check accepts exactly the well-linked trees",
 "The tree linkage check accepts a node list exactly when every parent index is negative or a smaller node index whose child list names the node, and every child index is a larger node index whose parent is the node.",
 IN,"all node lists within the size bound with arbitrary 64-bit parent and child indices",
 "Tests only pass trees produced by the planner.",
 [I+"simple_rrt_planner.hpp"],[("SimpleRRTPlannerTree::CheckNodeLinkage",I+"simple_rrt_planner.hpp")])
p("C35","Roadmaps contain exactly validated edges with the right direction and cost",
 "Every roadmap edge added by growing, building, or adding a query state goes between states for which the validity function accepted that direction and has that direction's distance as weight, also when validity and distance are asymmetric; every accepted pair among the K nearest is present. The roadmap stays well linked, duplicates are not added unless asked for, and updating edges sets each to its current distance or infinity.",
 ["inputs","configurations","schedules"],"all distance and validity tables, K, symmetry flags and granted thread counts within the bound",
 "Tests only use symmetric distances and validity.",
 [I+"simple_prm_planner.hpp"],[("AddNodeToRoadmap/BuildRoadMap/UpdateRoadMapEdges",I+"simple_prm_planner.hpp")])
p("C36","Roadmap queries return cheapest valid paths and leave the roadmap alone",
 "A roadmap query returns a path from one of the starts to one of the goals that only uses valid edges, cheapest among those its roadmap offers, or an empty path with infinite cost when there is none. The non-adding query leaves the roadmap unchanged and gives the same answer with an overlay as with a copy; starts join the roadmap nodes nearest from them and goals those nearest to them; lazy queries give the same answer as eager ones.",
 ["inputs","configurations"],"all distance and validity tables within the bound, overlay on/off, both queue modes, symmetric or not",
 "Tests compare a few fixed queries under symmetric costs.",
 [I+"simple_prm_planner.hpp"],[("QueryPath/LazyQueryPath/QueryPathAndAddNodes",I+"simple_prm_planner.hpp")])
p("C37","Hierarchical clustering partitions the data as its linkage rule says",
 "Every element ends in exactly one non-empty cluster. Under single link the clusters are the connected components of the 'distance at most the bound' relation; under complete link no cluster holds a pair further apart than the bound and no two clusters could still be merged within it.",
 ["inputs","configurations"],"all symmetric distance matrices within the size bound, all bounds, serial and parallel",
 "There is no test asserting clustering results.",
 [I+"simple_hierarchical_clustering.hpp"],[("IndexClusterWithDistanceMatrix, GetClosestPair",I+"simple_hierarchical_clustering.hpp")])
p("C38","K-means labels are a fixed point and impossible requests are refused",
 "K-means returns one label in [0, clusters) per element, and recomputing the cluster centres from the returned labels and reassigning gives the same labels. Requests that cannot be met (no clusters, more clusters than elements) are refused instead of looping forever.",
 ["inputs","configurations"],"all data, weights, cluster counts and seeds within the bound",
 "There is no test asserting clustering results; the endless loop needs more clusters than data.",
 [I+"simple_kmeans_clustering.hpp"],[("ClusterWeighted",I+"simple_kmeans_clustering.hpp")])
p("C39","Angles wrap into [-pi, pi) and angular distance is consistent",
 "Wrapping a finite angle gives a value in [-pi, pi) that differs from it by whole turns (up to rounding). The signed distance leads from the first angle to the second and lies in [-pi, pi), the distance is its absolute value, and range checks agree with it. Interpolating moves along the shorter way in proportion to the ratio; ratios outside [0, 1] count as the nearest end.",
 IN,"finite doubles within the bound, all ratios",
 "Tests use a table of angles.",
 [I+"math.hpp",S+"math.cpp"],[("EnforceContinuousRevoluteBounds, InterpolateContinuousRevolute",S+"math.cpp")])
p("C40","Interpolation and averaging respect their ends, sizes and weights",
 "Interpolating scalars, vectors, Eigen vectors, rotations and transforms gives the first argument at ratios at or below 0 and the second at or above 1 (exactly for numbers; up to sign and rounding for rotations) and combines component by component by the ratio in between; containers of different sizes throw. Linear, bilinear and trilinear interpolation weigh every corner by the opposite share of the cell. Every average throws for empty input, weights of another size, or weights that are all zero, returns a single element unchanged, does not count elements of weight zero, and weighs the others by the magnitude of their weight; rotations of equal weight meet half way and the heavier of two is nearer to their average; interpolated rotations divide the angle between them by the ratio, the short way. The standard deviation divides by one less than the number of values, of one element is 0 and of empty input throws.",
 IN,"all finite double values at the ends and for zero or single weights, exact integer cases in between, sizes within the bound",
 "Tests cover the revolute variants only.",
 [I+"math.hpp",S+"math.cpp"],[("Interpolate*, Average*, *linearInterpolate",S+"math.cpp")])
p("C41","Pairwise distance matrices hold every pair's distance",
 "The pairwise distance matrix of one set is symmetric with the function's value for each pair (zero diagonal for a metric), and of two sets has row per first and column per second element. Serial and parallel results are equal.",
 ["inputs","configurations","schedules"],"all element values within the bound, sizes within the bound, all granted thread counts",
 "Not tested directly.",
 [I+"math.hpp"],[("BuildPairwiseDistanceMatrix*",I+"math.hpp")])
p("C42","Colour conversion is exact on bytes and always in range",
 "A byte channel converted to float and back is unchanged, every channel of every colour constructed, converted or interpolated from numbers (not NaN) is in [0, 1] and holds its own argument, values beyond an interpolation range get the colour of its nearer end, and the lookup table gives distinct opaque-by-default colours for codes 1 to 20.",
 IN,"all 256 bytes, all floats, all 32-bit colour codes",
 "There is no colour test.",
 [I+"color_builder.hpp"],[("ColorChannelToHex/TrimColorValue/LookupUniqueColor",I+"color_builder.hpp")])
p("C43","Random generators are functions of their seed",
 "Two generators of the same kind seeded with the same value, by construction or by re-seeding after any amount of use, produce the same sequence. Discarding n values leaves a generator in the state that drawing n values would.",
 ["inputs","histories"],"all 64-bit seeds, all use histories within the bound",
 "There is no test of the generators.",
 [I+"simple_prngs.hpp"],[("seed/discard/operator()",I+"simple_prngs.hpp")])
p("C44","Equal values hash equally and comparison is consistent",
 "Grid indices, region keys, task outcomes and types made hashable field by field have equal hashes when they compare equal, comparison (also of grid sizes and graph edges) is an equivalence on values without NaN, a task outcome hashes as its state, and containers keyed by grid indices or regions find exactly the keys inserted.",
 IN,"all field values",
 "Tests never compare hashes.",
 [I+"voxel_grid.hpp",I+"dynamic_spatial_hashed_voxel_grid.hpp",I+"utility.hpp"],[("std::hash specialisations, hash_combine",I+"utility.hpp")])
p("C45","Utility wrappers: atomics copy their value, scope guards run once",
 "Copying, moving or assigning the atomic wrapper, also across memory orders, yields the current value, and its arithmetic returns the previous value, matches the plain type and loses no concurrent addition. A scope-exit guard runs its action exactly once when enabled, not at all when disabled, also when the scope is left by an exception.",
 ["inputs","histories"],"all values, all enable/disable sequences within the bound, normal and exceptional exit",
 "Tests cover one value and normal exit.",
 [I+"utility.hpp"],[("CopyableMoveableAtomic, OnScopeExit",I+"utility.hpp")])
p("C46","The collision-free fraction of a path counts its edges exactly",
 "The collision-free fraction of a path equals the number of consecutive pairs accepted before the first rejected one, over all consecutive pairs, so it is 1 exactly when every pair is accepted. Only consecutive pairs are queried, in order. An empty path counts as free and a single configuration is checked against itself.",
 IN,"all validity outcomes for paths within the length bound",
 "Not tested.",
 [I+"path_processing.hpp"],[("ComputePercentCollisionFree",I+"path_processing.hpp")])
p("C47","Time-optimal trajectories follow their path and can be queried and copied",
 "A parametrized trajectory starts and ends at rest at the path's ends, stays within the allowed deviation of the path, passes every waypoint within it, and keeps velocities within the limits (at changes of direction: up to the acceleration of one time step). What a query returns depends only on its time, not on earlier queries, and copies answer like their original, also after it is destroyed. Negative and NaN query times are refused, as are fewer than two waypoints, paths without length, mismatched sizes, negative or non-finite limits, and time steps that are not positive and finite.",
 IN,"all query times, histories of queries and copies, and refused arguments; listed and gridded paths",
 "Needs quantification over times, histories and paths; no test exists.",
 [S+"time_optimal_trajectory_parametrization.cpp",I+"time_optimal_trajectory_parametrization.hpp"],[("ParametrizePathTOTP, GetPositionVelocityTimePoint, Clone",S+"time_optimal_trajectory_parametrization.cpp")])
p("C48","Transform conversions keep component order and round-trip",
 "Conversions between standard vectors and Eigen vectors or quaternions keep every component in its documented place and round-trip bit for bit, and wrong sizes throw. Euler conversions compose in the documented order, keep the translation exactly, and extracted angles give back the same rotation.",
 IN,"all component values, all sizes within the bound",
 "There is no conversion test.",
 [I+"conversions.hpp",S+"conversions.cpp"],[("StdVectorDoubleToEigen*, Eigen*ToStdVectorDouble",S+"conversions.cpp")])
p("C49","Printing shows every element once in order",
 "Printing a container of any supported kind, also a nested one, shows each element once, in iteration order, with the requested separator between elements and, when requested, delimiters around them; an empty container prints as nothing. Eigen types show every component once, in order, with its name.",
 IN,"all containers and separators",
 "print_test is not part of the reliable tests here.",
 [I+"print.hpp"],[("Print",I+"print.hpp")])
p("C50","Random rotations are unit, evenly spread and agree in every form",
 "Generated rotations are unit quaternions (up to rounding) for every draw, and their moments over equidistributed draws are those of the uniform distribution over rotations: no direction preferred, components uncorrelated and equally large. Generated Euler angles lie within a turn and spread the rotated axes evenly. Every draw is in [0,1); the raw forms give the same rotation component by component (x, y, z, w; x, y, z).",
 IN,"all draws in [0,1) for the raw forms, listed and equidistributed draws for the rest",
 "Uniformity is a distributional statement; no test exists.",
 [I+"random_rotation_generator.hpp"],[("GenerateUniformRandomQuaternion, GenerateUniformRandomEulerAngles, GetRaw*",I+"random_rotation_generator.hpp")])
p("C51","Scoped OpenMP settings are restored",
 "The scoped thread-count wrappers set the requested number of threads while alive and restore the previous setting when destroyed, also when nested or when the scope is left by an exception. They refuse non-positive counts and use inside a parallel region, and the thread-count queries are free of data races and leave the setting alone.",
 ["inputs","histories","configurations"],"all thread counts, nesting up to the bound",
 "Tests use one count without nesting.",
 [I+"openmp_helpers.hpp"],[("ChangeOmpNumThreadsWrapper/DisableOmpWrapper",I+"openmp_helpers.hpp")])
p("C52","Vector, distance, twist and plane helpers agree with their definitions",
 "Element-wise vector operations change every element as named and refuse mismatched sizes; equality and closeness hold exactly when they hold for every component (never for NaN); all distance overloads agree, are symmetric, zero between equal values and refuse mismatched sizes; skew and twist matrices convert back to their vectors and act as the cross product; transforming a twist applies the adjoint; projection and rejection split a vector into a parallel and an orthogonal part; plane distances and projections agree with the raw dot product; clamped norms stay within the limit.",
 IN,"all values and sizes up to the bound, exactly representable results for sums of products",
 "Tests use a few fixed vectors; NaN, mismatched sizes and degenerate vectors are not sampled.",
 [I+"math.hpp",S+"math.cpp"],[("Add/Sub/Multiply/Divide, CloseEnough, Distance, Skew, Twist*, Adjoint*, Vector*, Hyperplane",S+"math.cpp")])
p("C53","Gaussian helpers stay within their bounds",
 "Every draw of a truncated Gaussian distribution lies within its bounds (up to rounding), a distribution without deviation returns its mean, and inverted bounds are refused; distribution functions and integrals over the (truncated) Gaussian are probabilities, zero below and one above the bounds, zero over empty intervals, and inverted limits are refused; densities are not negative and vanish outside the bounds. Multivariate draws are the mean plus a root of the covariance times unit draws, degenerate directions do not vary, and exactly mismatched sizes are refused.",
 IN,"all draws of the underlying distributions",
 "The header has no tests at all (it did not compile).",
 [I+"gaussian_distributions.hpp"],[("TruncatedGaussianDistribution, MultivariteGaussianDistribution, Evaluate*/Integrate*",I+"gaussian_distributions.hpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
assert len({x["id"] for x in P})==len(P)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
