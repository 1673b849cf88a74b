import json
P=[]
def p(id,title,stmt,over,qtext,why,files,syms):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":s,"where":files[0]} for s in syms]}})
p("C01","Segment ownership is a contiguous partition of the ring",
 "For every sampling rate that is at least the number of cluster nodes, every angular segment is owned by exactly one cluster node and every node owns at least one. Ownership is monotone: the nodes own consecutive blocks of segments in node order. The segment reported as the first one of the i-th next cluster node is the lowest segment that node owns.",
 ["inputs"],"all sampling rates, cluster sizes, segment ids and ring steps",
 "unit tests check a few (rate, cluster size) pairs; off-by-one and clamping errors live in the remainder cases",
 ["src/parameters.rs"],["Parameters::segments_per_node","Parameters::segment_id_to_assignment","Parameters::first_segment_of_i_next_cluster_node"])
p("C02","Points are assigned to the angular sector that contains them",
 "Every embedded point is assigned the segment whose half-open angular sector (counter-clockwise from the positive first axis, equal sectors) contains it (up to rounding of its angle), and the id is always smaller than the number of segments. Mirroring flips only the sign of the first coordinate and assigns the mirrored point the sector containing it; point ids, order and the other coordinates are kept.",
 ["inputs"],"all finite point coordinates and segment counts",
 "sector borders, negative angles and wrap-around at 2*pi are single points in a continuous input space",
 ["src/data_store/point.rs","src/data_store/utils.rs","src/data_store/mod.rs","src/utils/ndarray_extensions/mod.rs"],["Point::new_calculate_segment","Point::mirror","get_segment_id","DataStore::add_points_with_offset"])
p("C03","Segmentation keeps exactly the counter-clockwise crossings",
 "From a sequence of points, segmentation produces one transition for each consecutive pair of points whose counter-clockwise segment distance is between 1 and half the number of segments, and no other transition. Transitions keep their two points and stay in time order; with self-correction the points are mirrored exactly when the clockwise crossings outnumber the counter-clockwise ones.",
 ["inputs"],"all sequences of point segments, all rates, with and without self-correction",
 "the wrap-around at the last segment and the tie at exactly half the segments need specific pairs",
 ["src/training/segmentation/mod.rs","src/data_store/transition/mod.rs"],["Segmenter::segment","Segmenter::build_segments","TransitionMixin::has_valid_direction","Segmenter::try_self_correction"])
p("C04","Every crossed segment border yields exactly one intersection",
 "For every transition, exactly one intersection is recorded for each segment border it crosses counter-clockwise, that is for the segments after the start segment up to and including the end segment, also across the wrap-around. Each intersection is filed under its border's segment and the id of the transition's start point, and every transition is processed.",
 ["inputs"],"all sequences of transitions (start and end segments) and segment counts",
 "tests use a handful of transitions; the border count near wrap-around and at half the rate varies with every pair of segments",
 ["src/training/intersection_calculation/mod.rs","src/training/intersection_calculation/helper.rs","src/data_store/index.rs"],["IntersectionCalculator::calculate_intersections","IntersectionCalculationHelper::work"])
p("C05","Intersection coordinates lie on the crossing line and the border plane",
 "The point computed for a line and a plane lies on the infinite line through both line points and on the hyperplane through the origin spanned by the plane points. The coordinates stored with an intersection are the radial distances of that crossing point, one value per pair of coordinates (value i pairs coordinate i with coordinate i plus half the number of coordinates).",
 ["inputs"],"all line points and plane points in general position",
 "the property relates real-valued outputs to inputs; tests compare a few numeric examples",
 ["src/utils/geometry.rs","src/training/intersection_calculation/helper.rs"],["line_plane_intersection","IntersectionCalculationHelper::work"])
p("C06","Graph edges follow the visited nodes in traversal order",
 "On a single machine the edge list is the chain that connects consecutive intersection nodes: transitions in time order and, within a transition, borders in counter-clockwise traversal order also across the wrap-around. There is exactly one edge between each two consecutive nodes of that path and no other edge, and an edge is attributed to the start point of the transition that produced its end node.",
 ["inputs"],"all sequences of transitions and node labels",
 "ordering errors only show for specific combinations of wrap-around position, number of crossed borders and presence of a previous node",
 ["src/training/edge_estimation/mod.rs","src/training/edge_estimation/edges_orderer.rs","src/data_store/node/independent.rs"],["EdgeEstimator::estimate_edges","EdgeEstimator::connect_nodes","EdgesOrderer"])
p("C07","A cluster builds the same graph as a single machine",
 "When the points are split over several cluster nodes, with or without transitions in each part, the union of the edges built by all nodes equals, as a multiset, the edges one machine builds from the whole sequence; with self-correction all nodes mirror exactly when the clockwise crossings within the parts outnumber the counter-clockwise ones, each counted once. This holds for every order in which the messages of different senders arrive, and no node waits forever or crashes.",
 ["inputs","schedules"],"all point sequences and partitions of them, cluster sizes and cross-sender message orders",
 "needs specific combinations of cuts between cluster nodes and arrival orders of questions and answers",
 ["src/training/segmentation/mod.rs","src/data_store/node_questions/mod.rs","src/training/node_estimation/mod.rs","src/training/edge_estimation/mod.rs","src/training/intersection_calculation/mod.rs"],["Handler<SendFirstPointMessage>","Handler<SegmentMessage>","NodeQuestions::ask","NodeEstimator::search_for_asked_nodes"])
p("C08","Transposition hands every edge to exactly one responsible node",
 "After redistribution each edge is held by exactly one cluster node, the one responsible for the time range of the edge's end point, with the last node taking the remainder. No edge is lost, duplicated or altered, and each node's edges are sorted by time, for every order in which the messages arrive.",
 ["inputs","schedules"],"all edge sets, dataset lengths, cluster sizes and message orders",
 "remainder ranges and early messages are schedule and size specific",
 ["src/training/transposition/mod.rs","src/data_store/mod.rs"],["Transposer::transpose","Transposer::assign_edges_to_neighbours","Handler<TranspositionRotationMessage>","DataStore::sort_edges"])
p("C09","Edge weights and node degrees count the whole graph",
 "The weight of an edge is the number of times it occurs in the graph and the degree of a node is the number of distinct edges that end or start at it (a self-loop counts twice); edges and nodes are identified by segment and cluster only. In a cluster every node ends up with the sum over all cluster nodes' contributions, each counted once, for every message order.",
 ["inputs","schedules"],"all edge lists, cluster sizes and message orders",
 "double counting or dropped contributions depend on duplicate edges and on interleavings of two ring protocols",
 ["src/training/scoring/weights.rs","src/data_store/edge/mod.rs","src/data_store/edge/materialized.rs"],["ScoringWeights::calculate_edge_weight","ScoringWeights::calculate_node_degrees","Handler<NodeDegrees>","Handler<EdgeWeights>"])
p("C10","Window scores follow the published formula",
 "On a single machine, if there is an edge after the first point: for every start position the raw score is the negated sum, over the edges of the query window (those attributed to the query length minus one points after the start position, and the next edge if there is one), of edge weight times (degree of the edge's start node minus one), divided by the number of edges in the window; a window without edges takes the score of the window before it. The number of scores is the number of embedded points minus the query length, whatever points have edges.",
 ["inputs"],"all edge lists with times, weights and degrees, numbers of points and query lengths",
 "index arithmetic over irregular edge times; tests use a single fixture",
 ["src/training/scoring/mod.rs","src/training/scoring/helper.rs","src/training/scoring/weights.rs"],["ScoringHelper::score_sequence","ScoringHelper::score_p_degree","ScoringWeights::count_edges_in_time","Scorer::score"])
p("C11","Scores do not depend on thread count or completion order",
 "The score sequence is identical for every number of scoring threads, and for every order in which the threads finish. Scoring always completes.",
 ["inputs","schedules"],"all thread counts, score lengths, partial results and completion orders",
 "tests observe one schedule per run",
 ["src/training/scoring/mod.rs","src/training/scoring/helper.rs","src/utils/helper_protocol.rs"],["Scorer::parallel_score","Handler<ScoringHelperResponse>","fill_up_first_missing_points"])
p("C12","Reported scores are an order-preserving rescaling onto [0,1]",
 "Normalisation maps non-constant finite raw scores to values between 0 and 1, the smallest to 0 and the largest to 1, keeps length and positions, and never reverses the order of two scores. The normalised scores are what is delivered to the caller and what is written to the output file, exactly once and in order.",
 ["inputs"],"all raw score sequences",
 "order preservation under rounding and extremes cannot be sampled exhaustively",
 ["src/training/scoring/mod.rs","src/training/mod.rs","src/interface/mod.rs","src/interface/sink.rs"],["Scorer::normalize_score","Scorer::finalize_scoring","Handler<ScoringDone>"])
p("C13","Cluster sub-scores are joined in time order",
 "In a cluster whose first node has an edge in its range, every node obtains the same final score: the sub-scores of all nodes concatenated in node order, with leading windows without edges taking the last score of the preceding node, then normalised together. This holds for every order in which the sub-scores arrive.",
 ["inputs","schedules"],"all sub-scores, cluster sizes and message orders",
 "arrival orders at the ring and the empty-window flag combine in ways tests do not sample",
 ["src/training/scoring/mod.rs","src/utils/rotation_protocol.rs"],["Handler<SubScores>","Scorer::finalize_scoring"])
p("C14","Density peaks partition each segment's intersections",
 "Peaks of a density estimate are exactly its interior points that are strictly higher than both neighbours, mapped to their grid position, and a column with no peak (for example one of equal values) forms a single cluster. Every value is assigned to a nearest peak, two intersections get the same node label exactly if they have the same centers in all dimensions, and labels are numbered without gaps in order of first appearance.",
 ["inputs"],"all density estimates and intersection coordinates",
 "ties, plateaus, one-peak and no-peak columns are rare input shapes",
 ["src/training/node_estimation/multi_kde/mod.rs","src/training/node_estimation/multi_kde/actors/mod.rs","src/utils/float_approx.rs"],["MultiKDEBase::find_peak_values","MultiKDEBase::assign_closest_centers","MultiKDEBase::extract_labels"])
p("C15","Parallel density estimation covers every data row once",
 "For every number of rows and threads, the row ranges given to the helpers cover each row exactly once, the summed estimate is the same for every completion order, and exactly one result is produced per request.",
 ["inputs","schedules"],"all row counts, thread counts and completion orders",
 "uneven splits only show for specific row and thread counts",
 ["src/training/node_estimation/multi_kde/actors/gaussian_kde.rs","src/training/node_estimation/multi_kde/actors/helper.rs","src/training/node_estimation/multi_kde/actors/mod.rs"],["GaussianKDEActor::estimate","Handler<EstimatorResponse>"])
p("C16","Distributed statistics equal the statistics of the whole data set",
 "When every cluster node reports the row count, minimum, maximum, mean and spread of its part, each node ends with the row count, the per-column minimum and maximum and the standard deviation of the whole data set. The result does not depend on the order in which the reports arrive.",
 ["inputs","schedules"],"all data sets, splits and report orders",
 "a merge formula can agree with the expectation for the equal splits that tests use and be wrong for others",
 ["src/data_manager/stats_collector/minmax.rs","src/data_manager/stats_collector/std.rs","src/data_manager/mod.rs"],["MinMaxCalculation","StdCalculation"])
p("C17","Input rows are partitioned over the nodes with the right overlap",
 "If every node's share of rows is longer than the overlap, every row of the input file reaches the cluster nodes in order and unchanged: node i gets its contiguous share of rows followed by an overlap of pattern length minus one rows of its successor, the last node gets the remainder; empty lines are not rows. Exactly the requested column range is read.",
 ["inputs"],"all row counts, column counts, cluster sizes, pattern lengths and column ranges",
 "remainders and overlaps longer than the rest are size specific",
 ["src/data_manager/data_reader/mod.rs","src/data_manager/mod.rs","src/utils/itertools.rs"],["DataReader::read_csv","FromTo"])
p("C18","The phase space contains exactly the sliding window sums",
 "For every window position, every column and every offset, in order, the embedded point contains the sum of `latent` consecutive values of the series that start at that offset in the window; there are pattern length minus latent offsets. The number of embedded points is the number of rows minus pattern length plus one.",
 ["inputs"],"all series, pattern lengths and latent sizes",
 "index arithmetic over window, convolution and column positions; tests use one shape",
 ["src/data_manager/phase_spacer/mod.rs"],["PhaseSpacer::build"])
p("C19","The reference data set spans the global value range",
 "The reference set consists of 100 points made of constant windows whose value runs in equal steps from the global per-column minimum to the global per-column maximum, embedded like the data (each coordinate is the value times `latent`).",
 ["inputs"],"all minima, maxima and shapes",
 "tests use one shape",
 ["src/data_manager/reference_dataset_builder/mod.rs"],["ReferenceDatasetBuilder::build"])
p("C20","Rotation is rigid and aligns the reference direction",
 "The rotation applied to every column is an orthogonal matrix with determinant one that maps the direction of the first reduced reference point of that column onto the last axis, so distances between embedded points are preserved; the first two rotated coordinates of each point in each column become the coordinates used for segmentation (first coordinates of all columns, then second coordinates of all columns).",
 ["inputs"],"all non-degenerate reference directions and points",
 "orthogonality is an algebraic identity over all inputs, tests compare two matrices",
 ["src/training/rotation/mod.rs"],["Rotator::get_rotation_matrix","Rotator::rotate_data"])
p("C21","Preprocessing handles every column exactly once and then continues",
 "Every column of the data set is handed to a preprocessing worker exactly once, all results are collected before the next stage starts, and the next stage starts exactly once, for every number of columns and workers and every completion order.",
 ["inputs","schedules"],"all column and thread counts and completion orders",
 "tests observe one schedule",
 ["src/data_manager/preprocessor/mod.rs","src/data_manager/preprocessor/helper.rs"],["Preprocessor"])
p("C22","All-to-all and ring exchanges neither lose nor double messages",
 "An exchange between cluster nodes completes exactly when every expected message has been received and every own message has been sent. Messages that arrive before the node is ready are kept and processed afterwards exactly once, so completion does not depend on arrival order.",
 ["schedules","histories"],"all interleavings of start, send and receive events and early messages",
 "early messages only occur in rare interleavings",
 ["src/utils/direct_protocol.rs","src/utils/rotation_protocol.rs","src/utils/helper_protocol.rs","src/training/segmentation/mod.rs","src/training/intersection_calculation/mod.rs","src/training/node_estimation/mod.rs","src/training/transposition/mod.rs","src/training/scoring/mod.rs"],["DirectProtocol","RotationProtocol","HelperProtocol"])
p("C23","Cluster members agree on one ring and start exactly once",
 "For every order in which members join and the member list arrives, each node starts its work exactly once, only after all members are connected. All nodes use the same numbering of members, the main node is number 0, and each node's own number is the one the others use for it.",
 ["schedules"],"all join and message orders, cluster sizes",
 "join order is non-deterministic in real deployments and fixed in tests",
 ["src/cluster_listener.rs","src/utils/mod.rs"],["ClusterMemberListener","ClusterNodes::get_own_idx"])
p("C24","Explanations weigh each window by the rarity of its clusters",
 "If explanations are requested, the contribution file has one row per score position, in order. A row holds, per dimension, the mean over the window's edges of the rarity of the cluster center their start node stands for (one minus the share of the segment's intersections whose center has that coordinate), relative to the dimension's median over all rows; a window without edges or without any rarity repeats the row before it. The run finishes only after the file has been written.",
 ["inputs"],"all cluster counts and windows",
 "counts and empty windows vary",
 ["src/training/anomaly_contribution/mod.rs","src/training/scoring/mod.rs"],["AnomalyContribution","Scorer::build_anomaly_contribution_score"])
p("C25","Principal components are the same for every thread and node count",
 "The distributed decomposition used for rotation yields the same components, up to rounding, for every number of worker threads and cluster nodes and every message order, and it always completes.",
 ["inputs","schedules"],"all matrices, thread counts, cluster sizes and message orders",
 "tree-shaped reduction with uneven splits is schedule and size specific",
 ["src/training/rotation/pca/mod.rs","src/training/rotation/pca/helper.rs"],["PCAnalyzer","PCAHelper"])
p("C26","A run always delivers one score of the documented length",
 "A local run on valid input terminates for every number of threads and every scheduling of its workers and delivers exactly one score sequence, whose length is the number of embedded points minus the query length and which is the same for every schedule.",
 ["schedules","inputs"],"all schedules of the workers, thread counts",
 "tests observe one schedule and one thread count per run",
 ["src/lib.rs","src/training/mod.rs","src/interface/mod.rs"],["s2gpp","actor_fit","Training"])
p("C27","A cluster scores every window as a single machine does",
 "In a cluster every node delivers the score that one machine computes from the same edges: a window that reaches past the time range of its node also uses the edges of the following nodes and the next edge if there is one, and the edges of one transition keep the order in which it crosses the segments, whichever nodes they were built on. This holds for every order of the messages if the last node has more embedded points than the query length, some edge ends after the first point and the score is not constant.",
 ["inputs","schedules"],"all paths through the graph and their times, cluster sizes, message orders",
 "windows across node borders, points without edges and message orders are not sampled by tests",
 ["src/training/scoring/overlap.rs","src/training/scoring/weights.rs","src/training/transposition/mod.rs","src/data_store/mod.rs"],["ScoringOverlap::send_overlap_to_neighbor","ScoringWeights::count_edges_in_time","Transposer"])
p("C28","A cluster run delivers the score of a single machine",
 "A whole distributed run, from the input file on the main node to the score, delivers on every node the score that a run on one machine delivers for the same file and parameters, up to rounding, whatever the number of nodes, the remainder of rows and the order of messages. Parts of the series without any transition do not hold up the others. It holds if the series has transitions, the last node has more embedded points than the query length and the score is not constant.",
 ["inputs","schedules"],"all series, cluster sizes, row counts and schedules",
 "the existing cluster tests check single stages with fixed messages; agreement of all stages on ids, offsets and ownership shows only in whole runs",
 ["src/training/mod.rs","src/training/rotation/mod.rs","src/data_manager/mod.rs","src/training/segmentation/mod.rs","src/training/scoring/mod.rs"],["Training","Rotator::rotate_data","DataManager"])
p("C29","A run on a file writes what a run on the data returns",
 "A local run that reads a csv file writes, one value per line, exactly the scores that the library call returns for the selected columns as an array with the same parameters; this holds for every column range, thread count and order of messages, and blanks around values and names do not matter.",
 ["inputs","schedules"],"all series, column ranges, thread counts and schedules",
 "no existing test compares the two entry points of the library; they share only the stages after the data is read",
 ["src/lib.rs","src/training/mod.rs","src/data_manager/data_reader/mod.rs","src/training/scoring/mod.rs"],["s2gpp","Training::fit","DataReader","Scorer::output_score"])
p("C30","Command-line options are the parameters of the run",
 "Every documented command-line option, in its long form, its short form or with an equals sign, sets exactly its parameter to the given value, also a negative column end; all parameters that are not given keep their documented defaults. The role and its address decide which machine is the main one, and a machine is recognised as the main one by ip and port together.",
 ["inputs"],"all values of all documented options and roles",
 "the existing tests construct Parameters directly and never parse a command line",
 ["src/parameters.rs"],["Parameters","Role","Parameters::is_main_addr"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
