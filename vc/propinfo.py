"""Per-property notes that go into the evidence, the manifest and DESIGN.md (tools/mkdesign.py)."""
TRUSTED = ["the VC generator vc/engine.py with the background theory vc/theory.py", "SMT solvers z3 4.8.12, z3-new and cvc5 1.1.2 (an obligation counts when any one of them answers unsat)", "CPython executing the subset as the generator models it"]
ASSUMPTIONS = [
    "float arithmetic is treated as exact real arithmetic; ints are unbounded as in Python",
    "logging calls and the text of error messages have no effect on results and are dropped",
    "values compare by an equality that agrees with hashing (1 == True is one value); no NaN",
    "partial correctness: termination is not proved",
    "single-threaded use",
]
INFO = {}
PROVED = "contracts on the real Python source, every obligation discharged per function by an own VC generator with z3/cvc5; executable contracts replay failures on the real code"
MIXED = "contracts on the real Python source discharged per function by an own VC generator with z3/cvc5; functions outside its reach by a bounded check of the same contract on the real code"
BOUNDED = "bounded run of the executable contract on the real code (stand-in; no obligation discharged)"

NX = "networkx (DiGraph methods, is_directed_acyclic_graph, weakly_connected_components, subgraph copies): assumed contracts on a table-of-edges model"


def p(id, level, spec, rest="", bounded=(), assumptions=(), trusted=(), na=None):
    technique = {"proof": PROVED, "other": MIXED, "exploration": BOUNDED}[level]
    note = spec + (" Left open: " + rest if rest else "")
    INFO[id] = dict(level=level, technique=technique, note=note, spec=spec, rest=rest, trusted=list(trusted), bounded=list(bounded), assumptions=list(assumptions), explanation=note, na=na)


NETS = "all DAGs of up to 3 nodes, all 64 ordered DAGs of 4 nodes, chains, cycles, a 3x3 grid, disconnected networks, seeded random networks of up to 6 variables with 1-3 states"
p("C01", "other",
  "Proved: BBN.query returns, for every variable and state, the normalised marginal of the calibrated tree (on the contracts of build_join_tree and propagate); the factor arguments (get_args), the assignment of each factor to one clique, the initial potentials as the product of the assigned factors with evidence as zeros, one message (project, absorb, pass_message), and reading a marginal with its normalisation, for every join tree and every number of variables and states.",
  "that the order of the messages (JoinTree.propagate, collect_evidence, distribute_evidence) calibrates the tree, and the greedy construction of the tree (the module function build_join_tree): assumed contracts for the proof, and compared end to end with brute-force enumeration in the bounded part.",
  bounded=["BBN.query, JoinTree.propagate, build_join_tree end to end (%s)" % NETS],
  trusted=["contract of build_join_tree (a tree with the running intersection property over the triangulation's cliques)", "contract of JoinTree.propagate (afterwards each clique's potential is the sum of the product of all factors over the other variables)"])
p("C02", "other",
  "Proved: BBN.query has exactly one entry per state of every variable of the network (domain read from the network, True/False by default), with evidence every entry of a variable is divided by the total over that variable's states (so they sum to 1 unless all are 0); the marginal read from a clique has one entry per state, in the order of its domain, each the sum of the entries of a clique containing it.",
  "as for C01 the composition rests on the contracts of build_join_tree and propagate, which the bounded part runs.", bounded=["BBN.query end to end (%s)" % NETS],
  trusted=["contracts of build_join_tree and JoinTree.propagate, as for C01"])
p("C03", "proof",
  "Proved for validate_keyvals and BBN.query: VariableNotInGraphError exactly for a name that is no variable of the network, VariableValueNotInDomainError exactly for a value outside that variable's domain, and nothing is raised otherwise; validate_keyvals modifies nothing.",
  "draw_samples validates through query: its contract covers valid evidence, invalid evidence is run in the bounded part.",
  bounded=["BBN.query, BBN.draw_samples (%s)" % NETS], trusted=["contracts of build_join_tree and JoinTree.propagate, as for C01 (they raise nothing)"])
p("C04", "other",
  "Proved: frame conditions of query and draw_samples (they write no field of any object that existed before, apart from the bookkeeping field BBNNode.clique, which no answer reads before it is set) and of validate_keyvals, clique assignment, potentials, messages and marginals.",
  "that build_join_tree and propagate only write to the tree is part of their assumed contracts; sequences of calls with snapshots before and after are run in the bounded part.", bounded=["BBN.query, BBN.draw_samples (%s)" % NETS],
  assumptions=["copy.deepcopy gives an equal structure sharing nothing mutable with the original"], trusted=["contracts of build_join_tree and JoinTree.propagate, as for C01"])
p("C05", "proof",
  "Proved for get_args, get_original_factors, connect, BBN.__init__ and build_bbn: one node per factor, the variable each factor introduces, parents exactly the variables of its other arguments, children the inverse, no duplicates, domains kept, for every number of factors in any order, as arguments or as one list.")
p("C06", "proof",
  "Proved for make_node_func (with the function it returns, verified as a closure against the contract of calling it) and build_bbn_from_conditionals: one variable per table, its domain is exactly the states its rows mention, its function takes the parents in alphabetical order and then the variable, and evaluates to the listed probability for every row and every state of that row, however the parents are listed; parents in the network are exactly the parents the table names.",
  assumptions=["sorted() of (parent, state) pairs with distinct parents puts the parents in alphabetical order", "tables are well formed (the requirement of the property): every row lists a state, all rows name the same parents, once each, and no two rows agree on all parents", "the caller does not change the domain mapping it passed to build_bbn afterwards"])
p("C07", "proof",
  "Proved for make_undirected_copy and make_moralized_copy: node for node copy with name, variable and factor; adjacency exactly parent-child pairs, plus exactly the co-parent pairs after moralisation; symmetric, irreflexive, without duplicates in the additions; source graph and network unchanged.",
  assumptions=["copy.deepcopy of an UndirectedGraph: assumed contract (isomorphic fresh nodes, same name, variable and factor)"])
p("C08", "proof",
  "Proved for priority_func, construct_priority_queue and triangulate with its closure record_cliques: only edges are added, the elimination order lists every node once and is perfect for the filled graph (which is what chordal means), each step takes the least (edges added, weight, name), and the recorded cliques are exactly the maximal cliques.",
  assumptions=["copy.deepcopy of an UndirectedGraph as in C07", "heapq.heappush/heappop/heapify: assumed contract (pop returns a least element)"])
p("C09", "other",
  "Proved: clique_nodes and sepset_nodes return exactly the nodes of each kind, and the cliques handed to build_join_tree are the maximal cliques (C08).",
  "the greedy merge of build_join_tree (single tree, separators, running intersection): bounded, every pair of cliques and every path checked.", bounded=["build_join_tree, SepSet (%s)" % NETS])
p("C10", "proof",
  "Proved for assign_clusters, initialize_potentials and initial_likelihoods: each factor goes to exactly one clique that contains all its variables; the potential of a clique at an entry is the product of its factors' values there if the entry agrees with the evidence and 0 otherwise; separators are 1 everywhere; each potential has one entry per combination of the states of its variables.",
  assumptions=["itertools.product of the domains enumerates each combination once (assumed contract)"])
p("C11", "other",
  "Proved: project and absorb and their composition pass_message (the separator becomes the exact sum of the sender's entries, the receiver is multiplied by new over old with 0 left at 0, nothing else changes), neighbouring_cliques, and marginal.",
  "that collect/distribute sends each message once in the right order, i.e. calibration of the whole tree: bounded.", bounded=["JoinTree.propagate (%s)" % NETS])
p("C12", "other",
  "Proved for draw_samples, for every number of samples, network and random source with values in [0, 1): exactly n samples, each giving one state to every variable, the evidence kept, every drawn state has positive conditional probability (so the sample is possible together with the evidence), and is the one whose cumulative interval contains the random number.",
  "it calls query for each next variable, so its correctness rests on C01/C02 and on the chain rule for the answers, which enter as hypotheses.", bounded=["BBN.draw_samples with a scripted random source including 0.0 and the largest value below 1 (%s)" % NETS],
  assumptions=["random.random() returns a number in [0, 1)", "the answers of query are lawful (C01, C02) and do not depend on the order in which evidence is listed"])
p("C13", "proof",
  "Proved for BBN.get_graphviz_source: the text is exactly the header, one line per node in the order of the names, one line per parent-child pair in lexicographic order, and the footer; hence a function of the set of names and the set of edges alone, which is what independence of hash seeds and of the order of the factors means.",
  bounded=["BBN.get_graphviz_source across orders and hash seeds (%s)" % NETS], assumptions=["StringIO.write appends and getvalue returns what was written", "names of nodes are distinct (C05)"])
p("C14", "proof",
  "Proved for StructureModel.__init__, add_edge, add_edges_from, add_weighted_edges_from, edges_with_origin and _validate_origin: every edge has a valid origin, the one of its latest insertion; refusal leaves the graph as it was; attributes are stored on exactly the edges named.",
  assumptions=[NX])
p("C15", "proof",
  "Proved for remove_edges_below_threshold and threshold_till_dag: exactly the edges below the threshold go; the loop ends in a DAG, removes least weights first, and no kept edge is weaker than a removed one; an acyclic graph is untouched.",
  assumptions=[NX])
p("C16", "proof",
  "Proved for get_target_subgraph and get_largest_subgraph: the result is the weak component (of the node, or with the most edges), induced with attributes, in a fresh structure model; None without edges; a missing node raises.",
  assumptions=[NX])
p("C17", "other",
  "Proved for _is_known_type, validate_schema and the lookups variable_list, get_var_of_type, is_var_of_type, get_categorical_indices, get_indices (of one variable), get_feature_index, n_features and n_variables, for every list of nodes, schema, default and recorded mapping: validation refuses with a ValueError exactly when the default is no known type or a node's type is not legal (a categorical one needs a positive count without leading zeros), and otherwise gives each node, and no other, its own type or the default; every lookup answers from the recorded mapping, and unknown variables and types are refused.",
  "that the constructor builds the partition (names of features and their positions), get_feature_names and get_indices of collections are bounded: random schemas with names that are prefixes of each other.",
  bounded=["VariableFeatureMapper.__init__, get_feature_names, get_indices of collections (1-8 variables, cardinality up to 11)"],
  assumptions=["texts: occurrence, prefix and match of 'categorical:[1-9][0-9]*' by their values on the literals in the code and the implications match => prefix => occurrence", "the mapping has the four types and columns for every variable, one column for those that are not categorical (what the constructor builds, run in the bounded part)", "a variable name is a single value, not a list, set or iterator"])
p("C18", "proof",
  "Proved for from_numpy, from_numpy_lasso, from_pandas, from_pandas_lasso and the loops of _learn_structure and _learn_structure_lasso, for every matrix and every combination of restrictions: the bounds handed to the learner pin exactly the diagonal and the forbidden weights to zero (both parts with lasso) and leave every other weight free; every iterate keeps the pinned weights at zero; no edge of the result is forbidden; the nodes are the columns; names are translated to positions and back, and every edge is marked as learned; empty or non-finite data are refused.",
  "the weight of an edge in a named graph is compared with the array result in the bounded part, with an optimiser stand-in that may return any vector within the bounds it is given.",
  bounded=["notears.py from_numpy, from_numpy_lasso, from_pandas (2-5 variables)"],
  assumptions=["scipy.optimize.minimize with L-BFGS-B returns a new vector of the same length within the bounds it is given", "numpy arrays as shape and row-major entries (reshape and slices share their entries; a write to an array that is shared is refused)", "the objective functions are checked, by their text, to store nothing outside their own arrays; np.inf is an unknown number", "StructureModel(matrix) has an edge for each non-zero entry; add_weighted_edges_from as in C14", "DataFrame: columns, select_dtypes, values and deepcopy by assumed contracts; the restrictions name columns, and columns have distinct names"])
p("C19", "proof",
  "Proved for from_pandas_dynamic, from_numpy_dynamic, _learn_dynamic_structure, _reshape_wa, _matrices_to_structure_model and _format_name_from_pandas, for every data matrix, every number of variables and lags and every combination of restrictions: the bounds handed to the optimiser pin exactly the same-time diagonal and the forbidden weights (positive and negative part) and leave every other weight free; every iterate keeps the pinned weights at zero; the reshaping puts the weight of a lag and a pair where the graph reads it; an edge is in the graph exactly when its weight is not zero, with that weight; every edge ends at lag 0; there is a node for every variable and lag and no other; names are translated back to the columns.",
  bounded=["dynotears.py (2-4 variables, 1-2 lags)"],
  assumptions=["scipy.optimize.minimize with L-BFGS-B returns a new vector of the same length within the bounds it is given", "numpy arrays as shape and row-major entries; slices of rows, also with a step, by their definition", "DynamicDataTransformer (C20): a column per variable, and one per variable and lag", "decimal text of an integer determines it, and contains no '_lag'; text built as variable, '_lag', lag determines both", "StructureModel edge and node insertion as in C14; columns are distinct texts and the restrictions name columns", "rows and columns of a stacked matrix: row = lag * variables + variable (quotient and remainder)"])
p("C20", "proof",
  "Proved for fit, transform (giving arrays), _check_input_from_pandas, _cut_dataframes_on_discontinuity_points and _convert_realisations_into_dynotears_format, for every list of series (or single series), index, number of lags and order of columns: the series are cut exactly at the gaps of their own index, in order; there is one row for each point with p predecessors in its piece, at its place in the order, with the current values in the fitted column order and, in block k, the values k steps earlier in the same piece; a ValueError exactly for no series, columns that are not numeric, differ or are missing, or an index out of order, a TypeError for something that is not a frame or an index that is not of integers (either where both apply); transform before fit is refused.",
  "the data frame form of the result (_concat_lags: names and order of columns) is bounded.",
  bounded=["DynamicDataTransformer (1-3 series, up to 8 points with gaps, 1-3 lags), with and without return_df"],
  assumptions=["numpy diff, where and concatenate, pandas column selection, iloc, select_dtypes, sort_values by assumed contracts; a two-dimensional array is the sequence of its rows", "the offset of a part in a concatenation is the sum of the lengths before it, and every position lies in exactly one part", "data frames are not written (no item store is accepted), so a deep copy is as good as the original", "the rows of a series are as many as its index entries; p is at least 1"])
p("C21", "proof",
  "Proved for Discretiser.__init__, fit and transform: invalid settings rejected, split points by method, non-decreasing and within the range of the data, the data unchanged, transform counts the split points not above the value (so it is monotone with codes 0..n).",
  assumptions=["numpy linspace, quantile, unique, sort, histogram edges and digitize: assumed contracts over sequences of reals (monotone, within the range)"])
p("C22", "proof",
  "Proved for generate_structure, for every number of nodes, degree that is not negative, kind of graph, pair of weights and every outcome of the random source: a ValueError exactly when there are fewer than 2 nodes, the smallest absolute weight is above the largest, or the kind is unknown; otherwise a new graph with nodes 0..n-1 and a ranking of the nodes that every edge descends (so there is no cycle), all weights within the range in absolute value; a full graph joins every two nodes when the smallest weight is not 0.",
  bounded=["generate_structure replayed with numpy and networkx (up to 8 nodes)"],
  assumptions=["numpy: zeros, ones, tril, eye, rand, uniform, choice, permutation, astype, masks and elementwise arithmetic by assumed contracts; a product with a permutation matrix permutes rows or columns; round is within 1/2", "StructureModel(matrix) has an edge for each non-zero entry", "a finite graph whose edges all descend a ranking has no cycle"])
p("C23", "proof",
  "Proved for _do, reset_do, do_intervention, _generate_bbn, _create_node_functions and query: the intervened distribution replaces that variable's only, reset restores the fitted one, refusals change nothing, a single state means probability 1 for it, and query answers from the current distributions.",
  assumptions=["the rebuilt network (build_bbn, C05) and its query (C01) by their contracts", "_create_node_function (exec of generated text): assumed contract", "constructor reading the fitted conditional tables: assumed, run in the bounded part"],
  bounded=["InferenceEngine end to end (seeded random networks of up to 5 variables)"])
p("C24", "proof",
  "Proved for BayesianNetwork.__init__, nodes, edges, structure, node_states (getter and setter), fit_node_states, _state_to_index, fit_cpds, fit_node_states_and_cpds and cpds, for every structure and data set: a ValueError exactly when the structure has more than one weak component or is not a DAG; the recorded states are exactly the distinct values of each column, a missing node is a KeyError and a null state a ValueError, nothing recorded then; the index of a state is its position in sorted order; the estimator is given the codes of every node's own column and all codes of every node; every conditional table is labelled with the sorted states of its variable and the combinations of the sorted states of its parents.",
  "",
  bounded=["the whole chain is replayed on small data sets with a pandas/pgmpy stand-in (up to 5 nodes)"],
  assumptions=["number_weakly_connected_components, is_directed_acyclic_graph: assumed contracts", "pandas: unique, isnull, map, column selection, copy, MultiIndex.from_product, set_index by assumed contracts; pgmpy's BayesianModel keeps the edges given and its tables have one axis per variable, in the order of the codes", "states of one node are mutually comparable"])
p("C25", "proof",
  "Proved for _build_ground_truth, roc_auc and classification_report, for every node name, set of states and data set whose values are states: the truth has one indicator column per state in sorted order, zero where the state does not occur; roc_curve compares column k of the truth with the predicted probability of the same state; the points and the area returned are the ones computed; the classification report compares the node's column with the predictions, with every state as a label, named after it.",
  "",
  bounded=["roc_auc with the predictions of a fitted network, replayed with a pandas stand-in (up to 5 nodes)"],
  assumptions=["texts of the states of a node differ", "get_dummies, roc_curve, auc, classification_report: assumed contracts"])
p("C26", "proof",
  "Proved for plot_structure and _add_attributes: every node and edge of the copy carries default, then all-node/all-edge, then its own attributes; the structure passed in, the attribute mappings passed in and the styles are unchanged.",
  assumptions=["networkx attribute dictionaries, copy.deepcopy, to_agraph: assumed contracts"])
p("C27", "other",
  "Proved for from_numpy (pytorch/notears.py), update_tabu_edges, update_tabu_nodes, preprocess_tabu_edges/nodes, _expand_columns, DistTypeBase/Categorical.preprocess_X and DistTypeBase.__init__, for every matrix, schema and restriction: one bound per weight; the weights of self-loops, of tabu edges, tabu parents and tabu children and of edges among the columns of one categorical variable are pinned at zero, where a restriction on a categorical variable covers all its columns; so no such edge is in the result; schemas that do not match the columns, empty and non-finite data are refused.",
  "names of expanded columns (from_pandas) and the layout of the weights inside the torch module are bounded: torch is not installed, a stand-in model may return any weights within the bounds it was given.",
  bounded=["pytorch from_pandas, from_numpy, dist_type update_tabu_* (up to 5 variables)", "DistTypeOrdinal/DistTypePoisson.preprocess_X, add_to_node, collapse_adj (assumed contracts)"],
  assumptions=["NotearsMLP (torch): the first-layer weights stay within the bounds given, in the order child, hidden unit, parent, and an edge all of whose parts are pinned has weight zero", "OneHotEncoder gives one column per category; hstack, slices and deepcopy of arrays by assumed contracts", "StructureModel(matrix) has an edge for each non-zero entry; remove_edges_below_threshold only removes edges"])
p("C28", "proof",
  "Proved for predict, predict_probability and the four functions behind them (complete and incomplete data), and on the contract of cpds, for every structure, set of tables and states, and data set whose values are known states: from data that hold all parents, the value predicted in each row is a state whose entry in the node's table at the row's parent states is highest, and the column of each state holds that entry; when a parent is missing, pgmpy is given exactly the other columns as state indices, and its answers come back as the states with these indices, under the names {node}_prediction and {node}_{state}; rows and row labels are those of the data; no frame passed in is written.",
  "",
  bounded=["predict, predict_probability on small fitted networks and random tables with a pandas/pgmpy stand-in, compared with brute force (up to 4 nodes)"],
  assumptions=["pgmpy's tables list the parents in sorted order; its predict and predict_probability answer for each missing variable with the state names it was fitted with (the indices)", "pandas: apply over rows, idxmax, loc, at, drop, rename, map and column assignment by assumed contracts", "the tables and states are those fit_node_states and fit_cpds leave (their postconditions are the preconditions here); texts of the states of a node differ"])
