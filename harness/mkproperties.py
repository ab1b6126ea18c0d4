"""Writes properties.jsonl (kept as code so that the wording is reviewed in one place)."""
import json, os
B = "causalnex/ebaybbn/bbn.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Query returns the exact posterior marginals",
  "For a belief network built from factors or conditional tables, a query with any possible evidence returns, for every variable and every value of its domain, exactly the probability that the product of the tables implies for that value given the evidence. This holds for any acyclic structure, connected or not, any number of values per variable and any tables (zeros included), up to floating-point rounding.",
  ["inputs", "configurations"],
  "all DAGs, domain sizes, tables, orders of factors and evidence sets of positive probability, up to a few hundred variables of small tree width",
  "The tests compare a few marginals of five or six fixed, connected, mostly binary example networks; structure, domain size, zero entries and evidence sets are infinite families.",
  [B, "causalnex/ebaybbn/graph.py"],
  [("BBN.query", B), ("JoinTree.propagate / marginal", B), ("build_join_tree", B)], ["BBN.query result"])
p("C02", "Every query result is a family of complete distributions",
  "A query result has exactly one non-negative finite entry for every variable and every value of its domain and no other entries; the entries of each variable add up to one, and an observed variable has all its mass on the observed value. Evidence that has probability zero does not make the query fail: every entry of the result is then zero.",
  ["inputs", "configurations"], "all networks and all valid evidence, impossible evidence included",
  "Tests look up single entries of a result; none checks that the keys are complete, that sums are one for all variables, or what impossible evidence gives.",
  [B], [("BBN.query normalisation", B), ("JoinTree.marginal", B)], ["BBN.query result"])
p("C03", "Evidence is validated before it is used",
  "A query, or a request for samples, whose evidence names a variable that is not in the network raises VariableNotInGraphError, and one that gives a variable a value outside its domain raises VariableValueNotInDomainError. Evidence whose variables and values all belong to the network is never rejected, whatever the values are; a variable without a declared domain has the domain True, False.",
  ["inputs", "histories"], "all networks and evidence mappings: falsy values, several variables, one bad entry among good ones, earlier rejected requests on the same network",
  "Two tests try one bad name and one bad value on one network; combinations of valid and invalid entries and falsy values are not tried.",
  [B, "causalnex/ebaybbn/exceptions.py"], [("BBN.validate_keyvals", B)], ["exception type raised by BBN.query / BBN.draw_samples / BBN.validate_keyvals"])
p("C04", "Queries and sampling leave the network and the arguments unchanged",
  "The answer to a query depends only on the network and the evidence of that query: whatever queries (valid, rejected or with impossible evidence), samples, exports and join trees came before, on this network or another one, the same evidence gives the same result as on a freshly built network. No operation changes the mappings, lists or tables the caller passed in, and changing a returned result does not change later results.",
  ["histories"], "all sequences of operations on one or several interleaved networks",
  "The tests build a new network for nearly every assertion; no test runs a history of mixed operations or compares with a fresh network.",
  [B, "causalnex/ebaybbn/graph.py"], [("copy_undirected_graph", "causalnex/ebaybbn/graph.py"), ("JoinTree.initialize_potentials", B), ("BBN.draw_samples copies the query", B)],
  ["results of BBN.query before and after other operations", "argument objects before and after the call"])
p("C05", "Results do not depend on how the same network is presented",
  "Two descriptions of the same network give the same query results: the order of the factors, of the arguments of a factor, of the values in a domain and of the rows and conditions in a conditional table, whether factors come as a list, as separate arguments or as conditional tables, the names of factor functions (as long as they differ), and the hash seed of the process make no difference. Renaming variables or values only renames the result.",
  ["inputs", "configurations"], "all pairs of presentations of the same network, all hash seeds",
  "Tests use one presentation per network and run with one fixed hash seed (PYTHONHASHSEED=0).",
  [B, "causalnex/ebaybbn/utils.py"], [("build_bbn", B), ("make_node_func", B), ("get_original_factors", "causalnex/ebaybbn/utils.py")], ["BBN.query results of several presentations"])
p("C06", "The network has exactly the declared variables and edges",
  "A built network has one node per factor, which stands for the variable that this factor introduces, and an edge from P to C exactly when the factor of C takes P as an argument; parents and children mirror each other. The exported graphviz source lists exactly these nodes and exactly these edges.",
  ["inputs"], "all sets of factors that describe an acyclic network, in any order",
  "Tests check parents and the export of two fixed networks whose factors are listed in a friendly order.",
  [B, "causalnex/ebaybbn/utils.py", "causalnex/ebaybbn/graph.py"], [("build_bbn", B), ("get_original_factors", "causalnex/ebaybbn/utils.py"), ("BBN.get_graphviz_source", B), ("connect", "causalnex/ebaybbn/graph.py")], ["node parents / children / variable names", "graphviz text"])
p("C07", "Conditional tables are encoded entry by entry",
  "The factor built from a conditional table takes the parents in alphabetical order followed by the variable itself, and returns for every combination exactly the probability that the table gives for this value under these conditions. The order of the rows, of the conditions within a row and of the values within a row makes no difference, and the domain of the variable is the set of values in its table.",
  ["inputs"], "all conditional tables, any number of parents and values, rows with conditions in different orders",
  "Tests encode two or three tables with at most two parents, all rows in the same order.",
  [B], [("make_node_func", B), ("build_bbn_from_conditionals", B)], ["values of the encoded factor", "BBN domains"])
p("C08", "The moral graph joins exactly neighbours and co-parents",
  "The undirected copy of a network connects exactly the pairs joined by an edge, and the moral graph connects exactly those pairs and all pairs of parents of a common child; adjacency is symmetric, without self-loops or duplicates. Making either graph leaves the network and the graph it was made from unchanged.",
  ["inputs"], "all DAGs, including nodes with many parents and nodes whose parents are already connected",
  "Tests moralise one network with at most two parents per node.",
  [B, "causalnex/ebaybbn/graph.py"], [("make_undirected_copy", B), ("make_moralized_copy", B), ("copy_undirected_graph", "causalnex/ebaybbn/graph.py")], ["neighbour lists of the returned graphs"])
p("C09", "Triangulation yields a minimal-by-order chordal graph and its cliques",
  "Triangulation eliminates every node once, always one of least priority value in the remaining graph (by default: one that needs the fewest new edges); the graph passed in gains exactly the edges that eliminating in the returned order requires, so it becomes chordal, and a chordal graph gains none by default. The returned cliques are exactly the maximal cliques of the resulting graph.",
  ["inputs"], "all undirected graphs that arise as moral graphs, default and user-supplied priorities",
  "Tests triangulate one eight-node example; existence of unnecessary or missing fill edges on other graphs is not visible in them.",
  [B], [("triangulate", B), ("priority_func", B), ("record_cliques", B)], ["returned cliques and elimination ordering", "neighbours of the triangulated graph"])
p("C10", "The join tree is a tree with the running intersection property",
  "The join tree of a network is one connected tree whose clusters are the maximal cliques of a chordal supergraph of the moral graph, linked by separators that are exactly the intersection of the two clusters they connect. Every variable together with its parents lies in some cluster, and the clusters that contain a given variable form a connected part of the tree; this also holds for networks that are not connected.",
  ["inputs", "configurations"], "all DAGs, connected or not, any elimination priority",
  "Tests check the clusters and separators of one example network.",
  [B], [("build_join_tree", B), ("SepSet.insertable / insert", B)], ["clique nodes, separator nodes and their neighbours"])
p("C11", "Every table enters the join tree exactly once",
  "Every factor of the network is assigned to exactly one cluster, and that cluster contains all variables of the factor. After initialisation the product of all cluster potentials equals, for every assignment of values, the joint probability if the assignment agrees with the evidence and zero otherwise, and all separators are neutral, whatever the tree was used for before.",
  ["inputs", "histories"], "all networks and evidence, repeated initialisation of the same tree",
  "Tests check assignments in one network; a factor counted twice or dropped in another structure stays invisible.",
  [B], [("JoinTree.assign_clusters", B), ("JoinTree.initialize_potentials", B)], ["cluster assignments", "potential tables after initialisation"])
p("C12", "Propagation calibrates the join tree from any starting cluster",
  "After propagation from any starting cluster, every cluster and separator potential equals the sum of the product of all initial cluster potentials over the variables it does not contain, so neighbouring clusters agree on their separator. Propagating again, from the same or another cluster, changes nothing, and marginals read from the tree follow from the cluster potentials.",
  ["inputs", "schedules", "histories"], "all join trees and initial potentials (zeros included), all starting clusters, hence message orders, repeated propagation",
  "Tests propagate once from the default cluster in two networks; the message order is decided by set iteration order.",
  [B], [("JoinTree.propagate", B), ("collect_evidence / distribute_evidence", B), ("JoinTreeCliqueNode.pass_message / project / absorb", B)], ["potential tables after propagation", "JoinTree.marginal"])
p("C13", "Samples are complete, possible and consistent with the evidence",
  "A request for n samples returns n separate assignments, each of which gives every variable of the network a value of its domain, keeps the evidence as given and has positive probability under the network, for any outcome of the random choices. The evidence passed in is not changed.",
  ["inputs", "schedules"], "all networks with zeros in their tables, all evidence of positive probability, all n >= 0, all outcomes of the random number generator including the extremes",
  "Tests draw from one small network and compare frequencies; rare outcomes such as a draw of exactly 0.0 are never hit.",
  [B], [("BBN.draw_samples", B)], ["returned samples under chosen random outcomes"])
p("C14", "Samples follow the conditional joint distribution",
  "Samples drawn given evidence are independent draws from the joint distribution of the network conditioned on that evidence, not only from its marginals: the relative frequency of every complete assignment, and of every pair of consecutive assignments, converges to its probability.",
  ["inputs", "schedules"], "all networks and evidence of positive probability",
  "The test compares rounded marginal frequencies of one network and would accept samples with the wrong dependence between variables.",
  [B], [("BBN.draw_samples", B)], ["frequencies of joint assignments in long runs"])

I = "causalnex/inference/inference.py"
S = "causalnex/structure/structuremodel.py"
p("C15", "An intervention gives the posterior of the mutilated network",
  "After do_intervention(X, d) on an inference engine, query() with any possible observations returns the exact posterior of the network in which X has no parents any more and takes the states d as its distribution, all other distributions kept. A state that stands alone gets probability one and states left out get zero; before any intervention query() returns the exact posterior of the fitted network. An engine for a network without tables, or with a variable whose name does not match ^[0-9a-zA-Z_]+$, is refused with ValueError.",
  ["inputs", "configurations"], "all fitted networks (structures, states, probability tables), all intervened nodes and distributions, all observations of positive probability",
  "The tests of the engine (which need pgmpy) intervene on two fixed small networks; wrong mutilation in other structures, node orders or state sets stays invisible.",
  [I, "causalnex/ebaybbn/bbn.py"], [("InferenceEngine._do", I), ("InferenceEngine.query", I), ("InferenceEngine._generate_bbn", I), ("build_bbn", "causalnex/ebaybbn/bbn.py")], ["InferenceEngine.query result"])
p("C16", "Interventions form a history that can be undone",
  "The state of an inference engine is the fitted network with, for each variable, the latest accepted intervention since the last reset; reset_do(X) gives back the original distribution and parents of X and leaves the other interventions in force. A rejected request (a distribution that does not add up to one or has negative or unknown states, an unknown node) raises and leaves all answers as they were, and neither engines of the same network nor the network itself see each other's interventions; an engine goes on with the tables it was built with when the network is fitted again.",
  ["histories"], "all sequences of do, reset, query and rejected requests on one or several engines over the same network",
  "The tests apply one or two interventions and one reset; histories that mix several nodes, repetition, rejected requests and several engines are not sampled.",
  [I], [("InferenceEngine.do_intervention", I), ("InferenceEngine.reset_do", I), ("InferenceEngine._do", I)], ["InferenceEngine.query results after each step", "BayesianNetwork.cpds before and after"],
  [("_cpds / _cpds_original", "distributions in force and of the fitted network", I)])
p("C17", "A structure model knows the origin of every edge",
  "Every edge of a StructureModel has an origin among unknown, learned and expert: the one that the latest operation adding the edge gave, or unknown if that operation gave none; edges never mentioned by an operation keep theirs, and an invalid origin raises ValueError and changes nothing. edges_with_origin lists exactly the edges with that origin, attributes such as weight are kept, and copies and sub-models carry the origins along.",
  ["histories"], "all sequences of adding, re-adding, weighting, removing edges and nodes and copying models",
  "Tests add a few edges once; overwriting an origin, mixing the adding methods and removing afterwards are histories.",
  [S], [("StructureModel.add_edge / add_edges_from / add_weighted_edges_from", S), ("StructureModel.edges_with_origin", S)], ["edges and attributes of the model after each operation"])
p("C18", "Thresholding removes exactly the light edges",
  "remove_edges_below_threshold(t) removes exactly the edges whose absolute weight is below t and keeps nodes, weights and origins of the others. threshold_till_dag removes the edges of least absolute weight, one after the other, and stops as soon as the model is acyclic: the result is acyclic, no kept edge is lighter than a removed one, and an acyclic model loses nothing.",
  ["inputs"], "all weighted directed graphs: negative and equal weights, several cycles, weights at the threshold",
  "Tests use a handful of fixed graphs with distinct weights.",
  [S], [("StructureModel.remove_edges_below_threshold", S), ("StructureModel.threshold_till_dag", S)], ["edges of the model afterwards"])
p("C19", "Subgraphs are exactly what their definition says",
  "get_largest_subgraph returns the sub-model on a weakly connected component with the most edges (None if the model has no edge) and get_target_subgraph(X) the one on the component of X, each with all edges, weights and origins the model has between these nodes. The result is a structure model of its own, the model asked is not changed, and an unknown node raises NodeNotFound.",
  ["inputs", "histories"], "all directed graphs, including unconnected ones, isolated nodes, self-loops and cycles, with any node labels, and later changes to model or result",
  "Tests use a few small graphs for each function.",
  [S], [("get_largest_subgraph", S), ("get_target_subgraph", S)], ["nodes and edges of the returned model"])

N = "causalnex/structure/notears.py"
Y = "causalnex/structure/dynotears.py"
T = "causalnex/structure/transformers.py"
U = "causalnex/discretiser/discretiser.py"
p("C20", "Learned structures respect the request",
  "The structures returned by from_numpy(_lasso), from_pandas(_lasso) and the dynamic variants have exactly the variables of the data as nodes (for each lag l one node {variable}_lag{l}) and no forbidden edge: no self-loop, none of tabu_edges, none out of tabu_parent_nodes, none into tabu_child_nodes, none into a lagged variable, and none with absolute weight below w_threshold. The pandas forms give the column names back with origin learned, the arguments are not changed, and empty, infinite or non-numeric data raise ValueError, as do NaN values in the static forms.",
  ["inputs", "configurations"], "all data sets, weights and noise, constraints in any combination, thresholds, penalties, lag counts",
  "The tests (which need scikit-learn and pandas) learn a few fixed structures; combinations of constraints and column orders are not sampled.",
  [N, Y], [("from_numpy / from_pandas / from_numpy_lasso / from_pandas_lasso", N), ("_learn_structure / _learn_structure_lasso", N), ("from_pandas_dynamic / from_numpy_dynamic / _learn_dynamic_structure", Y)], ["nodes, edges, weights and origins of the returned model", "exceptions"])
p("C21", "Learned weights are optimal",
  "When the constraints leave only one causal order, the learned weights solve the (l1-penalised) least-squares problem that the documentation defines, and otherwise the optimality equations hold for every edge that is clearly in the structure and for every lagged slot. Numpy and pandas forms agree, and a thresholded result is the unthresholded one without its light edges.",
  ["inputs", "configurations"], "all data sets of full rank, allowed orders, penalties and lag counts",
  "Tests check that learned edges resemble those of one generator; a wrong gradient, a missing factor or a penalty applied to the wrong slots still finds them.",
  [N, Y], [("_learn_structure._func / _grad / _h", N), ("_learn_structure_lasso", N), ("_learn_dynamic_structure", Y)], ["edge weights of the returned model"])
p("C22", "Windows of time series hold exactly the complete past",
  "DynamicDataTransformer gives one row for each time point whose p predecessors are all present in the same frame, in the order of frames and rows, with the values of the fitted columns now and 1..p steps before under the names {column}_lag{l} (or as the pair X, Xlags); no row mixes frames or jumps over a gap in the index. Frames with wrong columns, index or types are refused as documented, and the data passed in are not changed.",
  ["inputs", "histories"], "all lists of frames with gaps, any lengths, lag counts, column orders and later transforms of other data",
  "Tests use two fixed frames with one gap.",
  [T], [("DynamicDataTransformer.fit / transform", T), ("_cut_dataframes_on_discontinuity_points", T), ("_convert_realizations_into_dynotears_format", T)], ["transformed rows and columns", "exceptions"])
p("C23", "Discretisation puts every value into the right bucket",
  "A fitted Discretiser maps a value to the number of split points that are not above it, with split points as the method documents: equal widths (uniform), equal frequencies (quantile), outside percentiles (outlier), given percentages (percentiles) or given values (fixed). Contradictory settings raise ValueError, fitting a fixed discretiser RuntimeError; the data are not changed and a second fit replaces the first.",
  ["inputs", "histories"], "all finite data sets with ties, values on split points and outside the fitted range, all settings, refits",
  "Tests check one array for each method.",
  [U], [("Discretiser.fit", U), ("Discretiser.transform", U), ("Discretiser.__init__", U)], ["bucket numbers", "exceptions"])
X = "causalnex/utils/data_utils.py"
p("C24", "Variables, features and their columns correspond one to one",
  "VariableFeatureMapper numbers the features of all variables consecutively in schema order, gives a categorical variable of k values the k features {variable}_{0..k-1} in neighbouring columns and every other variable one feature of its name, and answers all its questions from that one correspondence. validate_schema completes a schema by the default type for every unmentioned node and refuses unknown types.",
  ["inputs", "histories"], "all schemas, orders of variables and sequences of questions",
  "Tests ask about one schema.",
  ["causalnex/structure/categorical_variable_mapper.py"], [("VariableFeatureMapper", "causalnex/structure/categorical_variable_mapper.py"), ("validate_schema", "causalnex/structure/categorical_variable_mapper.py")], ["answers of the mapper", "exceptions"])

W = "causalnex/network/network.py"
p("C25", "A network is built on a connected DAG and keeps what it was given",
  "BayesianNetwork accepts exactly the structures that are acyclic and in one piece (anything else raises ValueError), and its nodes and edges are those of the structure at that time, even if the structure model (which its structure property gives back) is edited later. Its node_states are exactly the states last accepted; states that miss a node raise KeyError, a null state raises ValueError, and a refused request leaves states and tables as they were.",
  ["inputs", "histories"], "all structures, all sequences of setting and fitting states and tables, valid or not",
  "Tests (which need pandas and pgmpy) try one structure with a cycle, one with two parts and one missing node.",
  [W], [("BayesianNetwork.__init__", W), ("BayesianNetwork.node_states", W), ("BayesianNetwork.fit_node_states", W), ("BayesianNetwork.fit_cpds", W)], ["nodes, edges, node_states, cpds", "exceptions"],
  [("_node_states", "the states of each node and their index", W)])
p("C26", "Fitted tables are the frequencies of the data, and predictions follow from them",
  "After fit_cpds the table of every node has exactly its states as rows and the combinations of its parents' states as columns, with the relative frequencies in the data (or the K2 or BDeu estimate) as probabilities, whatever the order of columns and states. predict gives for each row a most probable state and predict_probability the probability of every state given what the row knows about the other nodes, under {node}_prediction or {node}_{state} and with the index of the data; the data are not changed and an invalid method or prior raises ValueError.",
  ["inputs", "histories"], "all networks, data sets, state sets larger than the data, priors, column orders, complete and incomplete rows, refits",
  "Tests fit one network with states 0 and 1 whose columns are already in order.",
  [W], [("BayesianNetwork.fit_cpds", W), ("BayesianNetwork.cpds", W), ("BayesianNetwork._predict_from_complete_data / _predict_probability_from_complete_data", W), ("BayesianNetwork._predict_from_incomplete_data / _predict_probability_from_incomplete_data", W), ("BayesianNetwork._state_to_index", W)], ["cpds", "frames returned by predict and predict_probability", "exceptions"])

G = "causalnex/structure/data_generators/core.py"
GW = "causalnex/structure/data_generators/wrappers.py"
p("C27", "Generated structures are the graphs that were asked for",
  "generate_structure and generate_structure_dynamic return acyclic models with exactly the nodes 0..n-1 (or {v}_lag{l} for every l from 0 to p, with edges into lag 0 only) and every absolute weight between |w_min| and |w_max| (for lag l divided by w_decay to the power l-1), w_min and w_max taken with either sign equally likely. full joins all pairs, erdos-renyi joins every pair in either direction with the probability that the degree asks for (degree/(n-1), between slices degree/n), and barabasi-albert gives one connected piece (for degree/2 above 0.5) with at most round(degree/2) edges per added node (halves to even; nodes are drawn with replacement); bad arguments raise ValueError.",
  ["inputs", "configurations"], "all sizes, degrees, types, weight ranges, lag counts and random seeds",
  "Tests check a few sizes and seeds, and need packages that are not always installed; missing edges into some node, a bias in directions or a weight outside the range in rare cases are not visible in them.",
  [G, GW], [("generate_structure", G), ("generate_structure_dynamic", GW)], ["nodes, edges and weights of the returned model", "exceptions"])
p("C28", "Generated data follow the structural model",
  "sem_generator, nonlinear_sem_generator and the generate_*_data / generate_*_dataframe functions return n_samples rows with the features of the schema as columns, and values of the type asked for: 0 and 1 for binary, exactly one 1 per row for a categorical variable, whole non-negative numbers for counts. Every variable is computed from its parents in the graph and its own noise (exactly, when noise_std is 0 or for given noise), the noise has the requested distribution and scale, the same seed gives the same data, and a cyclic graph, an unknown type or an unknown distribution raises ValueError.",
  ["inputs", "configurations"], "all acyclic weighted graphs, schemas, distributions, noise scales, intercepts and seeds",
  "Tests fit regressions to a few samples; a swapped weight, a wrong column or a noise of the wrong scale for a type or position that is not sampled is not visible in them.",
  [G, GW], [("sem_generator / _sem_generator", G), ("nonlinear_sem_generator", G), ("generate_continuous_dataframe and its siblings", GW)], ["the frames or arrays returned", "exceptions"])
p("C29", "Generated time series follow the dynamic structural model",
  "generate_dataframe_dynamic returns n_samples rows with one column {variable}_lag{l} for every node of the graph; a lag l column holds what its variable was l rows before, and every row is drift plus the weighted sum of the causes (in the same row and in earlier rows) plus noise of the requested distribution. gen_stationary_dyn_net_and_df returns such a series with n_samples rows and all values within bounds, or a constant one with a warning, and an unknown sem_type raises ValueError.",
  ["inputs", "configurations"], "all acyclic dynamic graphs, lag counts, burn-in lengths, drifts, noise types and seeds",
  "Tests look at column names and averages of a few series; the relation between a row and the rows before it is not checked.",
  [GW], [("generate_dataframe_dynamic / _sem_generator_dynamic", GW), ("gen_stationary_dyn_net_and_df", GW)], ["the frames returned", "exceptions and warnings"])

EV = "causalnex/evaluation/evaluation.py"
PL = "causalnex/plots/plots.py"
PD = "causalnex/plots/display.py"
p("C30", "Evaluation reports describe the predictions of the network",
  "roc_auc treats every row and every state of the node as one instance, positive if the row has that state and scored by the probability that predict_probability gives that state in that row; the points returned belong to thresholds on these scores, from (0, 0) to (1, 1), and the area is the probability that a positive instance scores above a negative one (ties count half). classification_report gives, under the name node_state of every state of the network, the support, precision, recall and F1 score of the predictions against the data. This holds for states of every type, states missing from the data, and data without columns for some parents; neither function changes its arguments.",
  ["inputs", "configurations"], "all fitted networks, nodes, state types and test data",
  "Tests use a network with one-letter names and states 0 and 1 and look at areas near 0, 1/2 and 1; a pairing of states with the wrong column shows only for other names, orders or types of states.",
  [EV], [("roc_auc", EV), ("classification_report", EV)], ["points and area", "the report", "exceptions"])
p("C31", "Plots show the structure with the styles asked for",
  "plot_structure gives a directed graph with exactly the nodes and edges of the structure, whose attributes are those of the structure overridden in turn by the defaults, all_node_attributes or all_edge_attributes, and node_attributes or edge_attributes (graph_attributes over the default graph style), laid out with the given program; the structure, the arguments and the default styles are not changed. color_gradient_string gives steps + 1 equal parts on the straight line between the two colours, which it starts and ends with exactly. display_plot_ipython and display_plot_mpl show the png drawn by the given program, on the given axes or a figure of its size, and raise ImportError without the library (plot_structure a Warning without pygraphviz).",
  ["inputs", "configurations", "histories"], "all structures, attribute settings and colours",
  "Tests set one attribute on a graph of two or three nodes; the order of precedence between all layers, repeated use of the default styles, and gradients other than two examples are not sampled.",
  [PL, PD], [("plot_structure / _add_attributes", PL), ("color_gradient_string", PL), ("display_plot_ipython, display_plot_mpl", PD)], ["the graph handed to pygraphviz at the time of layout", "strings", "figures and axes"])

TN = "causalnex/structure/pytorch/notears.py"
TC = "causalnex/structure/pytorch/core.py"
DT = "causalnex/structure/pytorch/dist_type/_base.py"
SB = "causalnex/structure/pytorch/sklearn/_base.py"
SR = "causalnex/structure/pytorch/sklearn/reg.py"
SC = "causalnex/structure/pytorch/sklearn/clf.py"
p("C32", "Structures over mixed distribution types respect the request",
  "pytorch.notears.from_numpy and from_pandas return a StructureModel whose nodes are the expanded columns of the data (one per column, and one more per category for categorical ones, named after their column and distinct), each with its distribution type and bias, with no edge inside a column and none that tabu_edges, tabu_parent_nodes, tabu_child_nodes or w_threshold exclude, where constraints hold for every node of a column; every edge has origin learned and a weight equal to the size of its mean_effect (at least that with hidden layers), and graph_collapsed has one node per column and gathers the weights of the expanded edges. NaN, infinite, empty, textual or negative Poisson data and schemas that do not fit them raise ValueError, and arguments are not changed.",
  ["inputs", "configurations"], "all data sets of all distribution types, schemas, constraints, penalties, hidden layers, thresholds and column names",
  "Tests need torch and pandas, and fix one data set and one schema; a constraint that is lost on one of the nodes of a categorical column shows only for certain column positions and constraints.",
  [TN, TC, DT], [("from_numpy / from_pandas", TN), ("NotearsMLP", TC), ("DistTypeBase", DT)], ["nodes, edges and attributes of the returned model", "exceptions"])
p("C33", "Structures over mixed distribution types fit the data best",
  "When the constraints leave only one order of the columns and there is no l1 penalty, the weights and biases that pytorch.notears finds maximise the penalised likelihood of the data under the distribution type of each column (Gaussian, logistic, multinomial, proportional odds or Poisson given its parents). reconstruct_data gives the means of these distributions for new data, and the same data given as array or frame lead to the same result; with an l1 penalty the result is never worse than the empty structure.",
  ["inputs", "configurations"], "all data sets of all distribution types, orders, ridge penalties, with and without bias",
  "Tests compare accuracy or signs on one simulated data set; a wrong scale of one term of a loss, of a penalty or of a link function shifts every weight a little and is not visible in them.",
  [TC, TN, DT], [("NotearsMLP.fit, reconstruct_data", TC), ("from_numpy", TN), ("DistTypeBase.loss, inverse_link_function", DT)], ["weights and biases of the returned model", "reconstruct_data"])
p("C34", "Estimators predict what was learned",
  "When its constraints leave one order of the columns, a fitted DAGRegressor or DAGClassifier predicts the means of the best penalised generalised linear model of the target given the features, which are those obtained from coef_ and intercept_ through the link of the target type; feature_importances_ are their sizes and get_edges_to_node and the attributes have one entry per feature in the order of the features (per class, for more than two classes). standardize changes no prediction of an unpenalised model, predict_proba gives one probability per class that add up to 1, and predict the most probable class.",
  ["inputs", "configurations"], "all data sets, feature and target types, penalties, thresholds, label types, new rows",
  "Tests (which need torch, pandas and scikit-learn) check scores and shapes on one data set each.",
  [SB, SR, SC], [("DAGBase.fit, predict, coef_, intercept_, feature_importances_, get_edges_to_node", SB), ("DAGRegressor", SR), ("DAGClassifier.predict_proba, predict, classes_", SC)], ["predict, predict_proba, coef_, intercept_, feature_importances_", "exceptions"])
p("C35", "Estimators depend only on their settings and the latest data",
  "After any history of fits, refused fits and predictions, a DAGRegressor or DAGClassifier answers as a new one with the same settings fitted to the data of its latest fit, whether these came as arrays or frames, with whatever index, names, labels and order of rows and columns; classes_ are the sorted labels. Before the first fit it raises NotFittedError, data that cannot be fitted raise ValueError and wrong settings TypeError or NotImplementedError; fit returns the estimator, leaves arguments unchanged, gives the target no children unless dependent_target is off, and an acyclic graph_ under enforce_dag.",
  ["histories", "inputs", "configurations"], "all histories on several estimators and data sets, all presentations of the data",
  "Tests fit every estimator once, to one presentation of one data set.",
  [SB, SR, SC], [("DAGBase.__init__, fit, predict", SB), ("DAGRegressor.fit", SR), ("DAGClassifier.fit", SC)], ["predictions along a history", "classes_, graph_", "exceptions"],
  [("graph_", "the fitted structure with its learner", SB), ("_ss_X / _ss_y", "scalers of features and target", SB)])


if __name__ == "__main__":
    import jsonschema
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sch = "/root/.vp/PROPERTIES.schema.json"
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for q in P:
            if os.path.exists(sch):
                jsonschema.validate(q, json.load(open(sch)))
            assert q["statement"].count(". ") <= 2, (q["id"], q["statement"])
            fh.write(json.dumps(q) + "\n")
    print(len(P), "properties")
