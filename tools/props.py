TS = ["src/training/segmentation/mod.rs", "src/training/intersection_calculation/mod.rs", "src/training/node_estimation/mod.rs", "src/training/transposition/mod.rs", "src/training/scoring/mod.rs", "src/training/scoring/weights.rs", "src/training/scoring/overlap.rs"]
PROTO = ["src/utils/direct_protocol.rs", "src/utils/rotation_protocol.rs"]

prop("P01", "Messages of faster cluster nodes are kept until this node is ready",
     "A message of an exchange phase (segments, intersections, node questions and answers, transposed edges, degrees, weights, score overlap, sub-scores, transition counts) that reaches a node before the node has entered that phase has no effect except that it is kept, and all kept messages are processed once the node enters the phase. No arrival order of the peers' messages loses, duplicates or misuses one.",
     ["schedules"], "every interleaving of peer messages with the node's own progress, every cluster size",
     "The distributed tests run one schedule on one host, and most of them are ignored or flaky; early arrival needs a specific race between processes.",
     TS + PROTO, [("received() refuses and buffers a message while the protocol is not running", "src/utils/direct_protocol.rs, src/utils/rotation_protocol.rs"), ("resolve_buffer() re-sends kept messages to self after start()", "phase start functions in src/training")])
prop("P02", "A cluster phase completes exactly when all contributions are in",
     "A node leaves an exchange phase exactly once, at the moment it has received every expected contribution of that phase (and has sent all of its own where the phase requires it): never earlier with contributions missing, and never staying in a phase whose contributions are complete.",
     ["schedules", "configurations"], "every arrival order and every cluster size",
     "Tests fix the cluster size at two and the order of arrivals; a barrier that opens one message early or late still passes there.",
     TS + PROTO, [("is_running() compares counters of sent and received messages with the expected totals", "src/utils/direct_protocol.rs, src/utils/rotation_protocol.rs"), ("handlers continue with the next phase when is_running() turns false", "src/training")])
prop("P03", "Every cluster node gets exactly the messages its peers wait for",
     "In each exchange phase a node sends each recipient exactly the number of messages the recipient's completion rule counts: one per peer in all-to-all phases (also when there is nothing to report), one to the next node per hop in ring phases, and every send is accounted for. Messages are addressed to the same kind of actor that handles them.",
     ["configurations", "inputs"], "every cluster size, every content (including empty contributions)",
     "A missing empty message or an unaccounted send only shows as a hang for particular data distributions and cluster sizes.",
     TS + PROTO + ["src/utils/mod.rs"], [("iteration over all cluster nodes with a default message for nodes without content", "src/training"), ("get_next_as/get_prev_as ring addressing", "src/utils/mod.rs")])
prop("P04", "Ring-aggregated values count every contribution once",
     "After degrees, edge weights, transition counts and sub-scores have travelled around the cluster, every node holds, for every key, the sum over all nodes of the nodes' own contributions (for sub-scores: each node's own list under that node's position). No contribution is dropped, overwritten or added twice, and what a node keeps as its own contribution is what it sends.",
     ["inputs", "configurations", "schedules"], "every content of the exchanged maps and every cluster size",
     "With two nodes each value takes one hop; overwriting instead of adding or double counting needs shared keys between particular nodes.",
     ["src/training/scoring/weights.rs", "src/training/scoring/mod.rs", "src/training/segmentation/mod.rs"], [("handlers of the ring messages add to the local map and forward the message unchanged", "src/training/scoring/weights.rs"), ("sub-scores are kept by sender id", "src/training/scoring/mod.rs")])
SC = ["src/training/scoring/mod.rs", "src/training/scoring/helper.rs", "src/training/scoring/overlap.rs", "src/training/scoring/messages.rs"]
prop("P05", "Each score is computed from exactly the edges of its time window",
     "Score i is computed from the edges between time point i and time point i + query_length - 1 (inclusive), as the negative sum over these edges of weight times (degree of the edge's source node minus 1), divided by their number; a window without edges repeats the score before it. There are (points - query_length + 1) windows, and a cluster node borrows from its successor exactly the query_length - 1 points and the edges needed to close the windows at the end of its time range.",
     ["inputs", "configurations"], "every edge list, every query length, every cluster size",
     "The example tests compare one series with one query length; an off-by-one in a window or in the shared border changes only few scores, or none on the sampled data.",
     SC, [("window bounds edges_in_time[i] .. edges_in_time[i + query_length - 1] + 1", "src/training/scoring/helper.rs"), ("overlap of query_length - 1 points is handed to the previous node", "src/training/scoring/overlap.rs")])
prop("P06", "Parallel scoring gives the same scores for any number of threads",
     "The windows to score are split into consecutive, non-overlapping, non-empty instructions that cover all windows; every helper scores with the node's own final edges, weights and degrees and answers each instruction once with one score per window; the answers are appended in window order whatever order they arrive in, early ones being kept until their turn; a leading gap of an answer is filled from the score before it; scoring ends when the last answer has been appended.",
     ["schedules", "configurations"], "every number of threads, every number of windows, every completion order of the helpers",
     "Helpers run on real threads, so tests see few completion orders and few thread counts.",
     SC, [("parallel_score splits windows into instructions", "src/training/scoring/mod.rs"), ("ScoringHelperResponse handler buffers answers by start", "src/training/scoring/mod.rs")])
prop("P07", "Final score joins all nodes' scores in time order, scaled once",
     "The final score consists of the sub-scores of all cluster nodes, each exactly once and in the order of the nodes' positions (of a single node: all its scores), a node's leading gap being filled with the last score of the node before. It is scaled once, over the whole series, by (x - min) / (max - min). If an output path is given, every score is written to that file in order, one per line, before the end of scoring is announced; the end is announced exactly once, when all sub-scores have arrived.",
     ["inputs", "configurations", "schedules"], "every distribution of scores over nodes, every arrival order",
     "Tests check the joined score for one data set on two nodes; order by arrival, per-node scaling or a dropped row agree with it by chance.",
     SC, [("finalize_scoring joins sub-scores by node id", "src/training/scoring/mod.rs"), ("output_score writes the score to the file", "src/training/scoring/mod.rs")])
prop("P08", "Graph nodes and edges are identified by segment and cluster only",
     "Two graph nodes are the same exactly if they have the same segment and the same cluster, whatever point produced them and on whichever cluster node they were created; two edges are the same exactly if both their nodes are. Equality and hashing agree, converting nodes, edges and transitions to and from their transferable form keeps their parts, an edge's weight is the number of its occurrences, and a node's degree counts each distinct edge once for both its ends.",
     ["inputs"], "all nodes and edges that can occur, in memory and after transfer",
     "Equality or hash that also looks at the point id still passes on small examples without repeated nodes, and a hash/equality disagreement only shows for particular hash values.",
     ["src/data_store/node/independent.rs", "src/data_store/node/mod.rs", "src/data_store/edge/mod.rs", "src/data_store/edge/materialized.rs", "src/data_store/transition/materialized.rs", "src/training/scoring/weights.rs"],
     [("PartialEq and Hash of IndependentNode, Edge, MaterializedEdge", "src/data_store"), ("calculate_edge_weight, calculate_node_degrees", "src/training/scoring/weights.rs")])
RT = ["src/parameters.rs", "src/training/mod.rs", "src/training/segmentation/mod.rs", "src/training/intersection_calculation/mod.rs", "src/training/node_estimation/mod.rs", "src/data_store/mod.rs"]
prop("P09", "Every transition, intersection and node reaches the owner of its segment",
     "Segments are owned in blocks of floor(rate / nodes) by the cluster nodes in order, the last node taking the rest. Every transition reaches the node that owns the segment it starts in, every intersection the node that owns the crossed segment, and no other; none is lost, duplicated or altered on the way, also for the step across the border between two nodes' partitions. Each node clusters all segments from its first own segment on, and every intersection of a clustered segment becomes a node with the label assigned to it.",
     ["inputs", "configurations"], "every set of points, every rate and every cluster size",
     "Tests use one rate that the number of nodes divides and a data set whose trajectory crosses few borders; a misrouted or dropped item changes only some nodes of the graph.",
     RT, [("segment_id_to_assignment", "src/parameters.rs"), ("build_segments, distribute_segments, SendFirstPointMessage, SegmentMessage", "src/training/segmentation/mod.rs"), ("assign_received_intersection, rotate_foreign_assignments", "src/training/intersection_calculation/mod.rs")])
prop("P10", "Transitions: forward steps of at most half a turn, crossing all segments between",
     "A step between two consecutive points is a transition exactly if the points lie in different segments and the second is at most floor(rate/2) segments ahead (cyclically); this rule is the same for steps within a partition and across the border of two cluster nodes' partitions. A transition is intersected with exactly the segments it enters, from the one after its start up to its end segment, in cyclic order, each intersection being computed for the line through its two points and the plane of that segment, and every such task is answered.",
     ["inputs", "configurations"], "every pair of segments, every rate (odd and even), both sides of a partition border",
     "The wrap-around, the exact half turn and odd rates are single points of the input space which the sampled series need not visit.",
     ["src/data_store/transition/mod.rs", "src/training/segmentation/mod.rs", "src/training/intersection_calculation/mod.rs", "src/training/intersection_calculation/helper.rs"],
     [("has_valid_direction, crosses_segments", "src/data_store/transition/mod.rs"), ("calculate_intersections: segment_diff and segment_lag", "src/training/intersection_calculation/mod.rs")])
prop("P11", "Edges across ownership borders end in the node the owner created",
     "Where one crossing of the trajectory lies in a segment of this node and the next one in a segment of another, exactly one of the two asks the other for the node of its crossing: the question names the crossing's point and segment, reaches the owner of that segment and carries the asker's position. Every question is answered once, to the asker, with the node the owner created for that point and segment, and the answer is stored under the question's previous crossing, also when question and answer cross the border between two partitions.",
     ["inputs", "configurations", "schedules"], "every trajectory, every rate and cluster size, every arrival order of questions and answers",
     "With two nodes and one data set few trajectories cross ownership borders; a lost question costs one edge and no test counts edges.",
     ["src/training/intersection_calculation/mod.rs", "src/data_store/node_questions/mod.rs", "src/data_store/node_questions/node_in_question.rs", "src/training/node_estimation/mod.rs"],
     [("NodeQuestions.ask/answer bookkeeping", "src/data_store/node_questions/mod.rs"), ("ask_for_nodes, NodeInQuestion handlers", "src/training/node_estimation/mod.rs"), ("questions for transitions between partitions", "src/training/intersection_calculation/mod.rs")])
prop("P12", "Each edge moves to the node that owns its target's time, and nothing is lost",
     "In a cluster, after edge estimation node i takes over the time points from i * floor(length/nodes) on, the last node the rest. Every edge ends up on exactly the node that owns the time of its target node: edges of other nodes leave, own edges stay, each unchanged and once, and received edges are all kept. Node degrees are counted before edges move. Afterwards the edges are in the order of their time, the edge entering a time step first.",
     ["inputs", "configurations", "schedules"], "every set of edges, every length and cluster size, every arrival order",
     "The test compares one small example on two nodes whose length the number of nodes divides; a lost or misrouted edge changes few scores.",
     ["src/training/transposition/mod.rs", "src/data_store/mod.rs", "src/training/mod.rs"],
     [("assign_edges_to_neighbours, transpose_rotation, TranspositionRotationMessage", "src/training/transposition/mod.rs"), ("wipe_graph, add_materialized_edges, sort_edges", "src/data_store/mod.rs")])
prop("P13", "Edges link the trajectory's crossings in the order they are passed",
     "Going over all time points in order, the crossings of a transition are linked by one edge each to the crossing before, the first one to the last crossing of the previous transition. A transition that passes the last segment is linked in the order it passes (..., last segment, first segment, ...), not in the order of segment numbers. Where the next crossing lies with another cluster node, the edge leads to the node that cluster node answered with, and the chain restarts after it. All edges are kept, and sorted by time when the phase ends.",
     ["inputs"], "every trajectory: any number of crossings per transition, with and without wrap-around, with and without predecessor",
     "The unit tests list a few node sequences; the two-node wrap at the start of the series (a panic until it was fixed) was not among them.",
     ["src/training/edge_estimation/mod.rs", "src/training/edge_estimation/edges_orderer.rs", "src/data_store/mod.rs"],
     [("connect_nodes", "src/training/edge_estimation/mod.rs"), ("EdgesOrderer::add_node / into_vec", "src/training/edge_estimation/edges_orderer.rs")])
prop("P14", "What one node sends to another arrives there complete",
     "Every message type that is sent to another cluster node is accepted there by the actor that handles it: it is addressed with that actor's id, the actor is registered when it starts, and the message has an identifier of its own. Everything the message carries travels with it: each field of the message and of all values inside it is written and restored unchanged, in the same order and under the same name. Answers go back to the asking actor over the connection the question came from. Going over all cluster nodes visits each peer and the own actor once.",
     ["inputs", "configurations"], "every message type and call site that sends to other nodes, every field of every type that travels, every cluster size",
     "A message that is not registered is dropped with a log line, and a field that is not serialised arrives as its default; on one node nothing is serialised at all, so local tests pass.",
     ["src/training/mod.rs", "src/data_manager/mod.rs", "src/cluster_listener.rs", "src/utils/mod.rs"],
     [("#[remote_messages(...)] and derived Serialize/Deserialize of the messages", "src/training/mod.rs, src/data_manager/mod.rs, messages.rs files"), ("change_id / iter_any_as / get_as", "src/utils/mod.rs"), ("with_source(source)", "src/data_manager/stats_collector/messages.rs")])
prop("P15", "Every input row reaches the node that has to process it, unchanged",
     "With N cluster nodes and n data rows, node k receives the rows k*L .. (k+1)*L, L = floor(n/N), followed by the pattern_length - 1 rows after them; the last node receives all rows from (N-1)*L on. All data records of the file are used, in order, without the header; a row that cannot be read or a value that is not a number ends the run instead of being left out or replaced. From each row the columns column_start..column_end are used (column_end 0: to the end, negative: counted from the end). A partition that arrives before the cluster is complete is kept and processed later. Data handed over in memory is used as it is.",
     ["inputs", "configurations", "schedules"], "every file, every number of nodes, every pattern length, every column selection, every arrival time of a partition",
     "The tests read one file in one process with a length that divides evenly; uneven divisions, blank lines (which shifted the partitions until that was fixed) and negative column ends are not covered.",
     ["src/data_manager/data_reader/mod.rs", "src/data_manager/mod.rs", "src/utils/itertools.rs"],
     [("read_csv", "src/data_manager/data_reader/mod.rs"), ("Handler<DataPartitionMessage>", "src/data_manager/mod.rs"), ("FromTo", "src/utils/itertools.rs")])

prop("P16", "Column statistics describe the whole dataset on every node",
     "Minimum and maximum of each column are those over the rows of all nodes. The standard deviation is the root of the sum of squared deviations from the common mean over n - 1, combined from the nodes' parts so that no row counts twice (rows a node shares with its successor are left out, except on the last node), in whatever order the parts arrive; n is the number of rows of the whole dataset. Every node contributes once, the results are sent when the contributions of all nodes are in, to every contributing node, and a node goes on when it has both range and deviation, not before.",
     ["inputs", "configurations", "schedules"], "every dataset, every number of nodes, every order in which the contributions and results arrive",
     "The tests compare the statistics of one or two nodes on one file, where the weights of the parts are equal; wrong weights (the mean difference was not weighted until that was fixed) stay unseen.",
     ["src/data_manager/stats_collector/std.rs", "src/data_manager/stats_collector/minmax.rs", "src/data_manager/stats_collector/mod.rs", "src/utils/ndarray_extensions/mod.rs", "src/data_manager/mod.rs"],
     [("Handler<StdNodeMessage>", "src/data_manager/stats_collector/std.rs"), ("Handler<MinMaxNodeMessage>", "src/data_manager/stats_collector/minmax.rs"), ("Stats::min_axis/max_axis", "src/utils/ndarray_extensions/mod.rs")])

prop("P17", "The phase space embeds every window of the data, next to its reference",
     "Point i of the phase space has, for every column and lag j < pattern_length - latent, the sum of the latent consecutive values starting at row i + j; there is one point for each full window of the node's rows (rows - pattern_length + 1), and the points are in the order of the rows. The reference dataset has 100 samples between minimum and maximum of each column, embedded the same way. Both are handed over together with the statistics exactly once, when preprocessing is done.",
     ["inputs", "configurations"], "every dataset, every pattern length and latent size, every number of columns",
     "The tests compare one data file with one parameter set; the windows are carried over incrementally from point to point, so an error may show only at certain sizes.",
     ["src/data_manager/phase_spacer/mod.rs", "src/data_manager/reference_dataset_builder/mod.rs", "src/data_manager/mod.rs", "src/utils/ndarray_extensions/mod.rs"],
     [("PhaseSpacer::build", "src/data_manager/phase_spacer/mod.rs"), ("ReferenceDatasetBuilder::build", "src/data_manager/reference_dataset_builder/mod.rs"), ("DataManager::finalize", "src/data_manager/mod.rs")])

prop("P18", "The principal components are those of all nodes' rows together",
     "For each column, the factor of every node's centred rows (and, with several threads, of every helper's chunk) enters the final factor exactly once through the reduction tree that ends at node 0, for any number of nodes and threads; column means are the means over the rows of all nodes. Node 0 decomposes the last factor only when all factors and means are in. Messages that arrive before a node is ready for them are kept and processed later, also across columns, and every column starts from a clean state. All nodes work with the same components (the first n_components right singular vectors, each turned so that its first entry is not negative) and the same means.",
     ["inputs", "configurations", "schedules"], "every number of nodes, rows and threads, every arrival order of factors and means, every column",
     "The tests decompose one matrix with a fixed number of nodes on one machine, where messages arrive in a friendly order; messages that overtook the local factor were lost until that was fixed.",
     ["src/training/rotation/pca/mod.rs", "src/training/rotation/pca/helper.rs", "src/training/rotation/mod.rs"],
     [("PCACalculator for Training", "src/training/rotation/pca/mod.rs"), ("PCAHelper", "src/training/rotation/pca/helper.rs"), ("Rotator::run_pca", "src/training/rotation/mod.rs")])

prop("P19", "Every embedded window becomes one rotated point with its own id",
     "The columns of the phase space are analysed one after the other. The points of the column analysed last, and of its reference, are centred with the means and projected on the three components; the other columns stay untouched. After the last column the main node builds for each column the matrix that turns the first reference point onto the third axis and sends it once to every node. A matrix that arrives before a node has finished its projection is kept and handled then. Each node stores its points in the order of its rows, the first two coordinates of every column's rotated projection, numbered from node * floor(rows / nodes) on, in the segment (of `rate` equal sectors) of its angle, and then announces that the rotation is done.",
     ["inputs", "configurations", "schedules"], "every dataset, number of columns, cluster size and rate; every arrival time of the rotation matrix",
     "The tests compare one rotation of one or two columns with a tolerance; ids and early matrices matter only with several nodes.",
     ["src/training/rotation/mod.rs", "src/utils/ndarray_extensions/mod.rs", "src/data_store/mod.rs", "src/data_store/point.rs", "src/data_store/utils.rs"],
     [("Rotator for Training", "src/training/rotation/mod.rs"), ("cross2d / norm / repeat", "src/utils/ndarray_extensions/mod.rs"), ("add_points_with_offset", "src/data_store/mod.rs"), ("get_segment_id", "src/data_store/utils.rs")])

prop("P20", "Self-correction mirrors the whole trajectory or none of it, on all nodes",
     "With self-correction, every step into another segment counts as valid or as running against the direction. Each node's counts reach all nodes and are added once; the decision waits for all of them. Exactly if in total fewer steps are valid than run against the direction, every node mirrors every one of its points (first coordinate negated, segment recomputed, id and other coordinate kept) and segments them again, with nothing left from the first attempt and without losing what other nodes sent meanwhile; otherwise the steps found first are used. Without self-correction nothing is counted, exchanged or mirrored.",
     ["inputs", "configurations", "schedules"], "every trajectory, every cluster size, every arrival order of the counts",
     "The test suite mirrors one tiny point set; mixed counts over several nodes and leftovers of the first attempt need a multi-node run in which the decision is close.",
     ["src/training/segmentation/mod.rs", "src/data_store/mod.rs", "src/data_store/point.rs"],
     [("self_correction / try_self_correction / clear_segmentation", "src/training/segmentation/mod.rs"), ("mirror_points", "src/data_store/mod.rs"), ("Point::mirror", "src/data_store/point.rs")])
prop("P21", "All cluster nodes agree on the members' ids and start training once",
     "In a cluster of n nodes, as soon as the main node is connected to all n-1 others it sends each of them the same member list, with itself first and every other node once; a node's id is its position in that list, on every node. A node starts its training exactly once, when it has the list and is connected to all others, whichever comes last; a list that arrives before the last connection is kept. The training gets every other node under its id. If a member leaves, the sub nodes end. A single node starts at once and alone, and sub nodes join at the main node's address. In-memory data is fitted directly and the scores are returned; otherwise every node reads the input itself.",
     ["schedules", "configurations"], "every order in which nodes connect and the list arrives, every cluster size",
     "The tests build the node map by hand; a cluster of processes forms in one order on one host, and only with the actual binary.",
     ["src/cluster_listener.rs", "src/lib.rs", "src/training/mod.rs", "src/parameters.rs"],
     [("ClusterMemberListener: NewMember / SortedMembersMessage / sort_members / start_training", "src/cluster_listener.rs"), ("s2gpp, s2gpp_async", "src/lib.rs"), ("Handler<StartTrainingMessage>", "src/training/mod.rs")])
KD = ["src/training/node_estimation/multi_kde/actors/mod.rs", "src/training/node_estimation/multi_kde/actors/gaussian_kde.rs", "src/training/node_estimation/multi_kde/actors/helper.rs", "src/training/node_estimation/multi_kde/mod.rs", "src/utils/helper_protocol.rs"]
prop("P22", "Crossings are clustered by the density of all of them, for any threads",
     "To cluster the crossings of a segment, every dimension is estimated once and in order. The density of a dimension is the sum, over all crossings with equal weight, of their Gaussian kernels (all of the width given by Scott's rule) at each point of the grid; for any number of threads each crossing enters exactly once, every task is answered once, and the density is complete before it is used, starting from nothing for each dimension. Peaks are read off the same grid the density was estimated on, for the same column: a peak is a grid point whose density exceeds that of both neighbours, and the center of a crossing is the peak closest to it (without peaks, all share one center). Every crossing gets one label, and two crossings share a label exactly if their centers agree in all dimensions; labels are numbered from 0 without gaps and sent once, after the last dimension.",
     ["inputs", "configurations", "schedules"], "every set of crossings, every number of threads and completion order of the helpers",
     "The unit tests cluster two fixed point sets with few threads and compare labels; a crossing lost at a chunk border or weighted twice leaves these labels as they are.",
     KD, [("cluster_next_dim / find_cluster_centers", KD[0]), ("send_tasks, EstimatorResponse handler, reset", KD[1]), ("EstimatorHelper::evaluate", KD[2]), ("extract_labels_from_centers", KD[3])])
prop("P23", "The caller gets the final scores once, and nothing stops before the end",
     "Fitting data in memory starts one training for exactly that data, in this process alone and with the given parameters, and returns the final scores of that training; the object it was called on is unchanged and can be used again. When scoring is done, whoever asked for the result gets the final scores once, unchanged, and every run ends with the end of the actor system. Nothing ends earlier: no message before the end of scoring stops the training or the system, no code path exits the process, and helper actors are ended only when their work is done.",
     ["inputs", "histories", "schedules"], "every input and parameter set, every order of the phases' messages",
     "The tests call the sink and the actors of single phases; that every path ends, and none too early, is not a matter of single runs.",
     ["src/interface/mod.rs", "src/interface/sink.rs", "src/training/mod.rs"],
     [("actor_fit, SinkActor", "src/interface/mod.rs"), ("MySink", "src/interface/sink.rs"), ("Training::init / fit / started, Handler<ScoringDone>", "src/training/mod.rs")])
prop("P24", "Every option reaches the parameter it names, from all entry points",
     "Each command-line option sets the parameter of its name and no other; an option that is not given has its documented default (pattern-length 50, latent 16, rate 100, threads 8, cluster-nodes 1, query-length 75, all columns, kde clustering, no output file, no explainability, no self-correction). 'main' makes the main node of the given file, 'sub' a sub node of the given main node. The program runs once with these parameters, refuses explainability in a cluster and nothing else, and a failed run does not end like a successful one. Each argument of the Python functions and classes reaches the parameter of its name, the data is passed on unchanged and the scores are returned.",
     ["configurations"], "every combination of options and arguments",
     "The tests build Parameters by hand; parser, binary and Python binding are not tested at all.",
     ["src/parameters.rs", "src/bin/s2gpp.rs", "src/python_binding.rs", "s2gpp/__init__.py"],
     [("Parameters (structopt), Default", "src/parameters.rs"), ("main", "src/bin/s2gpp.rs"), ("s2gpp_local_array / _file / _distributed_*", "src/python_binding.rs"), ("Series2GraphPP", "s2gpp/__init__.py")])
prop("P25", "Contributions explain each window by its nodes' rarity per dimension",
     "With explainability on, each segment's clusters are recorded once, with the number of crossings of every label, row k of the centers belonging to label k. A cluster's contribution in a dimension is one minus the share of the segment's crossings whose center has the same value in that dimension; each node has the contribution of its own cluster. The contribution of a score window is the average of the contributions of the source nodes of its edges, counting a node as often as it occurs, and zero if it has none. The contribution file gets one row per window (its contributions relative to each dimension's median over all windows; a window without any takes those of the one before), in the order of the windows and complete, before the end of the run is reported, which happens exactly once; without explainability nothing is collected and the end is reported at once.",
     ["inputs", "configurations"], "every clustering, every number of dimensions, labels and windows",
     "The unit tests check the uniqueness of one small matrix and one average; no test runs the program with explainability, so order, completeness and the link between nodes, labels and rows stay open.",
     ["src/training/anomaly_contribution/mod.rs", "src/training/scoring/mod.rs", "src/training/node_estimation/mod.rs", "src/training/node_estimation/multi_kde/mod.rs"],
     [("record_contributions / calculate_dimension_uniqueness / query_node_score", "src/training/anomaly_contribution/mod.rs"), ("finalize_scoring, Handler<QueryClusterContributionResponse>", "src/training/scoring/mod.rs"), ("label counts in Handler<ClusteringResponse>", "src/training/node_estimation/mod.rs")])
prop("P26", "Data preparation covers every column once and then hands over once",
     "The statistics that arrive (minimum, maximum, standard deviation, number of rows) are stored under their own names, and the preparation of the data starts exactly once, when the last of them has arrived, whichever that is. For any number of columns and threads every column is given to the helpers exactly once, every column is answered once, and after the last answer, and not before, the end of the preparation is reported once; it never waits for an answer that cannot come. Preparing and measuring the data leaves it as it was read.",
     ["configurations", "schedules"], "every number of columns and threads, every order of statistics and helper answers",
     "The tests use two or three columns with one thread count; a stalled or early end needs more columns than threads or a particular order.",
     ["src/data_manager/mod.rs", "src/data_manager/preprocessor/mod.rs", "src/data_manager/preprocessor/helper.rs", "src/data_manager/stats_collector/mod.rs"],
     [("datastats_finished, handlers of MinMaxDoneMessage and StdDoneMessage", "src/data_manager/mod.rs"), ("distribute_work, Handler<ProcessedColumnMessage>", "src/data_manager/preprocessor/mod.rs"), ("DatasetStats::is_done", "src/data_manager/stats_collector/mod.rs")])
prop("P27", "Crossings lie where the trajectory passes the boundary of a segment",
     "The boundary of segment s are the points whose first two coordinates lie in the direction s/rate of a full turn, whatever their other coordinates. For every transition and every segment it enters, and for any number of dimensions, the crossing is the point where the line through the transition's two points meets this boundary, and it is described by one distance per dimension: the distance from the origin of the point's two coordinates for that dimension (the j-th and the (d+j)-th of 2d).",
     ["inputs", "configurations"], "every transition, crossed segment, segment count (rate) and number of dimensions",
     "The tests check the result for a handful of fixed points and segments, mostly in one dimension; a wrong plane or a mixed-up dimension only shows for other directions or more dimensions.",
     ["src/training/intersection_calculation/mod.rs", "src/training/intersection_calculation/helper.rs", "src/utils/geometry.rs", "src/utils/ndarray_extensions/mod.rs"],
     [("calculate_intersections", "src/training/intersection_calculation/mod.rs"), ("IntersectionCalculationHelper::work", "src/training/intersection_calculation/helper.rs"), ("line_plane_intersection", "src/utils/geometry.rs"), ("PolarCoords", "src/utils/ndarray_extensions/mod.rs")])
NEST = "src/training/node_estimation/mod.rs"
prop("N01", "Numeric accuracy of the f32 linear algebra and density estimates",
     "The computed principal components, rotation, crossings, densities and scores are close to their real-number definitions for every input.",
     ["inputs"], "every input series",
     "Rounding depends on the values; tests see few.",
     ["src/training/rotation/pca/mod.rs", "src/utils/geometry.rs", "src/training/node_estimation/multi_kde/gaussian_kernel_estimate.rs"],
     [("QR, SVD, inverse and exp in f32", "src/training/rotation/pca/mod.rs")],
     na="Bounds on rounding and conditioning depend on runtime values and on LAPACK, which is outside the analysed source; no sound static argument in reach bounds them. The formulas themselves are decided by P16-P19, P22.")
prop("N02", "A cluster run gives the same scores as a single process",
     "For every input and cluster size the scores of a cluster run equal, up to rounding, those of a single process.",
     ["inputs", "configurations"], "every input series, every cluster size",
     "Needs whole runs on all inputs.",
     ["src/training/scoring/mod.rs"], [("the whole pipeline", "src/training")],
     na="An equality of two whole runs over all inputs is a relational property of floating-point results; it does not even hold exactly (the order of summation and the sign of components differ). What it decomposes into (who gets what, exactly once, at which index) is decided by P01-P21.")
prop("N03", "Every run terminates, in time proportional to the data",
     "Every run on a connected cluster ends within a time that grows with the data as documented.",
     ["inputs", "schedules"], "every input and schedule",
     "Termination and time are not observable in finitely many tests.",
     ["src/training/mod.rs"], [("the chain of phases", "src/training")],
     na="Time depends on the data (number of crossings, KDE grid) and on mailbox scheduling in actix; panics inside an actor end its work without ending the process. Phase completion is decided per phase (P02, P03, P21, P23, P26).")
