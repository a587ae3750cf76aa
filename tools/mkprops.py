"""Writes properties.jsonl."""
import json
import os
B = "causalnex/ebaybbn/bbn.py"
G = "causalnex/ebaybbn/graph.py"
U = "causalnex/ebaybbn/utils.py"
P = []


def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)


p("C01", "Queries return the exact posterior of every variable",
  "For every discrete Bayesian network given by one conditional table per variable of an acyclic graph (connected or not), querying with any evidence of positive probability returns, for every variable and every state, the posterior probability defined by the product of the tables. The answer does not depend on the order in which factors, parents or states are listed, on variable names, or on the hash seed.",
  "every finite DAG, every table with non-negative entries, every evidence assignment of positive probability",
  "the tests query a few textbook networks with fixed evidence; exactness must hold for every graph shape, fill-in pattern, number of components, table and evidence",
  [B, G, U], [("query", B + ":BBN.query"), ("message passing", B + ":JoinTree.propagate"), ("join tree", B + ":build_join_tree")], observe=["BBN.query"])
p("C02", "Query results are complete and normalised",
  "A query returns exactly one entry for each (variable, state of its domain) pair, each a number in [0, 1]; for each variable they add up to 1, and an observed variable has 1 at its observed state and 0 elsewhere. Evidence of probability zero raises no error and gives 0 for every entry.",
  "every network, every valid evidence including impossible evidence, domains of any size including a single state",
  "the tests look at individual entries of a few networks, and never at evidence of probability zero or at mixed domain sizes",
  [B], [("normalisation", B + ":BBN.query"), ("evidence", B + ":JoinTree.initialize_potentials"), ("zero handling", B + ":JoinTreeCliqueNode.absorb")], observe=["BBN.query"])
p("C03", "Invalid evidence is rejected, valid evidence is not",
  "Evidence that names a variable which is not in the network raises VariableNotInGraphError, and evidence whose value is not in that variable's domain (True and False when no domain was given) raises VariableValueNotInDomainError. Evidence whose names and values are all valid is never rejected.",
  "every network, every evidence mapping",
  "two fixed bad inputs at most are tried by tests; the guarantee is over all names, values, domain declarations and mixtures of valid and invalid items",
  [B, "causalnex/ebaybbn/exceptions.py"], [("validation", B + ":BBN.validate_keyvals")], observe=["BBN.query", "BBN.validate_keyvals"])
p("C04", "Querying and sampling leave the network and arguments unchanged",
  "A query depends only on the network and its evidence: repeating it, or running any sequence of other queries, rejected queries or sampling calls in between, gives the same answer. Neither querying nor sampling changes the network's factors, tables, domains and parent/child links, nor the evidence mapping passed in.",
  "every network and every history of queries, failing queries and sampling calls",
  "the tests make one query per freshly built network; hidden state shows up only over histories",
  [B, G], [("per-query join tree", B + ":BBN.query"), ("deep copies", B + ":make_moralized_copy"), ("sample copies", B + ":BBN.draw_samples")], over=("histories", "inputs"), observe=["BBN.query", "BBN.draw_samples"])
p("C05", "Network construction links each variable to its parents",
  "Building a network from factor functions, passed as separate arguments or as one list and in any order, gives one node per factor, identifies the variable each factor introduces, and makes the parents of a node exactly the variables that its factor takes besides its own, with children the inverse relation and without duplicates. The declared domains are kept as given.",
  "every set of factor functions (with distinct function names) that describes an acyclic network, in every order, both call forms",
  "tests build a handful of networks in one order; dependency order, factor order and argument order are unbounded",
  [B, U, G], [("construction", B + ":build_bbn"), ("who introduces what", U + ":get_original_factors"), ("linking", G + ":connect")], observe=["build_bbn"])
p("C06", "Tables given as conditionals are reproduced by the built network",
  "A network built from conditional tables evaluates each factor to exactly the probability written in the table for the given parent values and child value, with arguments ordered as parents alphabetically and then the child, whatever the order in which the parents are listed in the table. Each variable's domain is exactly the set of values that its table mentions, and its factor's name is derived from the variable's name.",
  "every table specification: any number of parents, any listing order, any hashable values",
  "tests use tables whose parents are already alphabetical and whose domains are booleans",
  [B], [("table factor", B + ":make_node_func"), ("domains", B + ":build_bbn_from_conditionals")], observe=["make_node_func", "build_bbn_from_conditionals"])
p("C07", "Moral graph is exactly the undirected moral graph of the network",
  "The undirected copy of a network has one node per network node with the same name, variable and factor, joined exactly when one is a parent of the other; the moralised copy additionally joins exactly the pairs that share a child. Adjacency is symmetric and irreflexive, without duplicates in the moralised additions, and making either copy changes neither the network nor the graph it was copied from.",
  "every network DAG",
  "tests check two fixed networks node by node",
  [B, G], [("undirected copy", B + ":make_undirected_copy"), ("moralisation", B + ":make_moralized_copy")], observe=["make_undirected_copy", "make_moralized_copy"])
p("C08", "Triangulation is chordal and yields exactly the maximal cliques",
  "Triangulating a graph only adds edges, leaves it chordal, and returns an elimination order that lists every node once and that eliminates at each step a node adding the fewest edges (ties by name). The returned cliques are exactly the maximal cliques of the triangulated graph, none repeated or contained in another.",
  "every undirected graph with distinct node names",
  "tests triangulate one textbook graph; fill-in depends on the whole elimination history",
  [B], [("elimination", B + ":triangulate"), ("priority", B + ":priority_func"), ("clique recording", B + ":record_cliques")], observe=["triangulate"])
p("C09", "Join trees satisfy the running intersection property",
  "The join tree built for any network is a single tree that joins the maximal cliques of its triangulated moral graph through separators, each separator sitting between two cliques and holding exactly the variables they share. Any variable common to two cliques is in every clique and separator on the path between them, and every factor's variables lie together in at least one clique.",
  "every network DAG, including networks with several connected components",
  "tests compare the tree for one or two connected networks",
  [B], [("separators by mass then cost", B + ":build_join_tree"), ("forest merge", B + ":SepSet.insert"), ("cycle test", B + ":SepSet.insertable")], observe=["build_join_tree"])
p("C10", "Each factor enters the potentials once, evidence enters as zeros",
  "Before propagation every factor of the network is assigned to exactly one clique that contains all its variables. The product of all clique potentials then equals, for every full assignment, the joint probability if the assignment agrees with the evidence and 0 otherwise, while every separator potential is 1 everywhere and each potential has one entry per combination of the states of its variables.",
  "every network, every evidence, every domain",
  "tests assert a few entries of the potentials of one network without evidence",
  [B], [("assignment", B + ":JoinTree.assign_clusters"), ("potentials", B + ":JoinTree.initialize_potentials")], observe=["JoinTree.initialize_potentials", "JoinTree.assign_clusters"])
p("C11", "Propagation calibrates the join tree",
  "After propagation, started at any clique, every clique and separator potential is the marginal over its variables of the joint probability with evidence, so that neighbouring cliques agree on their separator. Each message replaces the separator's table by the exact sum of the sender's table and multiplies the receiver by new over old, leaving entries that are 0 at 0, and reading a variable's marginal sums the right entries of a clique containing it.",
  "every join tree, every potential tables with zeros included, every start clique",
  "tests check one network's marginals after one propagation",
  [B], [("collect/distribute", B + ":JoinTree.propagate"), ("projection", B + ":JoinTreeCliqueNode.project"), ("absorption", B + ":JoinTreeCliqueNode.absorb"), ("marginal", B + ":JoinTree.marginal")], observe=["JoinTree.propagate", "JoinTree.marginal"])
p("C12", "Sampling returns complete, possible assignments that respect evidence",
  "Drawing n samples returns exactly n assignments, each giving every variable one state of its domain, containing the given evidence unchanged, and having positive probability whenever the evidence has. Each state is drawn by inverting the cumulative posterior given what is already in that sample, so for every value of the random source the chosen state is the one whose cumulative interval contains it.",
  "every network, evidence of positive probability, n, and every sequence of values of the random source (including 0 and values next to 1)",
  "tests do not sample; the edge values of the random source have probability zero in any run",
  [B], [("inverse transform", B + ":BBN.draw_samples")], over=("inputs", "histories"), observe=["BBN.draw_samples"])
p("C13", "Graph export lists exactly the nodes and edges of the network",
  "The graphviz source of a network is a digraph that contains one node line per factor, in name order, and then exactly one edge line per parent-child pair, in order, and nothing else but the fixed header and footer. It is the same text for the same network whatever the hash seed or the order in which the factors were given.",
  "every network",
  "no test reads the export",
  [B], [("export", B + ":BBN.get_graphviz_source")], observe=["BBN.get_graphviz_source"])
S = "causalnex/structure/structuremodel.py"
p("C14", "Every edge of a structure model has a valid origin",
  "After any sequence of constructing, adding edges singly, in bulk or weighted, every edge of a structure model carries an origin that is one of unknown, learned or expert, namely the one passed with its latest insertion (unknown by default); an invalid origin is refused with an error before the graph changes. The list of edges of a given origin is exactly the edges carrying it, and weights and other attributes passed are stored on exactly the edges named.",
  "every history of constructor and edge-insertion calls",
  "tests apply each insertion method once to small graphs",
  [S], [("origin validation", S + ":_validate_origin"), ("insertion", S + ":StructureModel.add_edge"), ("bulk insertion", S + ":StructureModel.add_edges_from")], over=("histories", "inputs"), observe=["StructureModel.edges"])
p("C15", "Thresholding removes exactly the weak edges",
  "Removing edges below a threshold removes exactly the edges whose absolute weight is strictly less than it and changes nothing else. Thresholding until acyclic leaves a DAG by removing edges one at a time in order of smallest absolute weight and stops as soon as the graph is acyclic, so an already acyclic graph is left untouched and no kept edge is weaker than a removed one.",
  "every weighted digraph, every threshold, negative weights and ties included",
  "tests use a few small graphs with distinct positive weights",
  [S], [("threshold", S + ":StructureModel.remove_edges_below_threshold"), ("till DAG", S + ":StructureModel.threshold_till_dag")], observe=["StructureModel.edges"])
p("C16", "Subgraph extraction returns whole connected components",
  "The target subgraph of a node is exactly the weakly connected component that contains it, with all its edges and attributes, and asking for a missing node raises an error; the largest subgraph is a component with the greatest number of edges, or nothing if there are no edges. The result is a separate structure model, and the original graph is not changed.",
  "every digraph, every node",
  "tests use a few graphs with two components",
  [S], [("largest", S + ":StructureModel.get_largest_subgraph"), ("target", S + ":StructureModel.get_target_subgraph")], observe=["StructureModel.get_target_subgraph", "StructureModel.get_largest_subgraph"])
M = "causalnex/structure/categorical_variable_mapper.py"
p("C17", "Variable-to-feature mapping is a partition of the feature columns",
  "For every valid schema (with names whose expansions do not collide), the indices of all variables partition the feature columns: each binary, continuous or count variable owns one column, each categorical variable owns as many consecutive columns as its cardinality, and every column is owned once. Looking up a feature's index, a variable's indices (alone or in collections) and a variable's feature names are mutually consistent, and completing a schema gives unspecified variables the default type and rejects unknown types and bad cardinalities.",
  "every schema",
  "tests use a handful of schemas",
  [M], [("expansion", M + ":VariableFeatureMapper.__init__"), ("lookup", M + ":VariableFeatureMapper.get_indices"), ("schema", M + ":validate_schema")], observe=["VariableFeatureMapper"])
N = "causalnex/structure/notears.py"
p("C18", "Structure learning never returns a forbidden edge",
  "Learning a structure from an array, with or without lasso, never returns a self-loop, an edge listed as tabu, an edge out of a tabu parent or an edge into a tabu child, whatever the data; every other edge is left free to be learned. The data-frame variants return every column as a node, translate column names to positions for the restrictions and back, and mark every edge as learned with its weight.",
  "every data matrix, every combination of tabu restrictions",
  "tests learn from a few data sets with a few restrictions",
  [N], [("bounds", N + ":from_numpy"), ("lasso bounds", N + ":from_numpy_lasso"), ("naming", N + ":from_pandas")], observe=["from_numpy", "from_pandas"])
D = "causalnex/structure/dynotears.py"
p("C19", "Dynamic structure learning respects tabu edges and names lagged nodes",
  "Learning a dynamic structure never returns an edge forbidden by the tabu restrictions, a contemporaneous self-loop, or an edge into the past: an edge from lag k of a variable to lag 0 of another is in the result exactly when the learned weight for that pair and lag is non-zero, with that weight. Nodes are named after variable and lag, one for every variable and lag.",
  "every data matrix, lag order and tabu restriction",
  "tests learn from a few data sets",
  [D], [("bounds", D + ":from_numpy_dynamic"), ("matrices to graph", D + ":_matrices_to_structure_model")], observe=["from_numpy_dynamic", "from_pandas_dynamic"])
T = "causalnex/structure/transformers.py"
p("C20", "Time-series transformation aligns lags and never crosses gaps",
  "Transforming time series gives one row for each time point that has p predecessors without a gap in its own series, in order, with the current values and, for each lag k from 1 to p, the values exactly k steps earlier, in column order. No row mixes values of different series or of points on either side of a gap in the index; series whose index is not of increasing integers, or whose columns differ or are not numeric, are refused.",
  "every list of series, index with gaps, number of lags p",
  "tests use a few short series",
  [T], [("cutting", T + ":DynamicDataTransformer._cut_dataframes_on_discontinuity_points"), ("lags", T + ":DynamicDataTransformer._convert_realisations_into_dynotears_format")], observe=["DynamicDataTransformer.transform"])
Q = "causalnex/discretiser/discretiser.py"
p("C21", "Discretisation is monotone and follows the split points",
  "A discretised value is the number of split points that are less than or equal to it, so the mapping is monotone, has between 1 and (number of split points + 1) codes, and fixed split points are used as given. Fitting computes split points that are non-decreasing and lie within the data's range, according to the chosen method, does not change the input data, and invalid settings are rejected.",
  "every data array and every configuration",
  "tests use a few arrays",
  [Q], [("fit", Q + ":Discretiser.fit"), ("transform", Q + ":Discretiser.transform")], observe=["Discretiser"])
W = "causalnex/structure/data_generators/core.py"
p("C22", "Generated random structures are DAGs within the weight bounds",
  "Randomly generating a structure gives, for every seed and parameters, an acyclic graph with the requested number of nodes whose edge weights have absolute values within the requested range, and a full graph has every possible pair joined. Invalid parameters are refused.",
  "every parameter setting and every state of the random source",
  "tests draw a few seeds",
  [W], [("structure", W + ":generate_structure")], observe=["generate_structure"])
I = "causalnex/inference/inference.py"
p("C23", "Interventions replace one variable's distribution and can be undone",
  "Intervening on a variable replaces its distribution by the given one, independent of its parents, and leaves every other conditional distribution as it was; resetting restores the fitted distribution, whatever sequence of interventions and resets preceded. An intervention whose probabilities do not sum to 1, lie outside [0, 1] or whose states differ from the variable's states is refused and changes nothing; a single state means probability 1 for that state, of whatever type the state is.",
  "every fitted network and every history of interventions, failed interventions and resets",
  "tests perform a few interventions",
  [I], [("do", I + ":InferenceEngine._do"), ("reset", I + ":InferenceEngine.reset_do")], over=("histories", "inputs"), observe=["InferenceEngine.query"])
NW = "causalnex/network/network.py"
p("C24", "Network states are indexed consistently",
  "Fitting node states records exactly the distinct values of each column, refuses missing values and missing columns, and the state-to-index conversion is the position in sorted order, so conditional tables are labelled with the states they belong to. A network is accepted only for a structure that is a connected DAG.",
  "every structure and every data set",
  "tests use a few data sets",
  [NW], [("states", NW + ":BayesianNetwork.node_states"), ("structure check", NW + ":BayesianNetwork.__init__")], observe=["BayesianNetwork.node_states", "BayesianNetwork.cpds"])
E = "causalnex/evaluation/evaluation.py"
p("C25", "Evaluation compares each state's prediction with its own truth",
  "The ROC evaluation pairs, for each state of the node, the predicted probability of that state with the indicator of that state in the data, whatever the node and state names and types. States that do not occur in the test data count as all-zero truth. The classification report compares the node's own data with its predictions, with every state as a label in sorted order, named after the node and the state.",
  "every node name, every set of states, every data set",
  "tests use a few names",
  [E], [("ground truth", E + ":_build_ground_truth"), ("alignment", E + ":roc_auc")], observe=["roc_auc"])
PL = "causalnex/plots/plots.py"
p("C26", "Plot attributes follow the documented precedence",
  "Plotting a structure decorates a copy: every node and edge carries the default attributes, overridden by the all-node or all-edge attributes, overridden by the attributes given for that node or edge. The structure passed in and the default styles are never changed.",
  "every structure and every attribute mapping, every history of plotting calls",
  "tests plot a few graphs",
  [PL], [("decoration", PL + ":_add_attributes")], over=("inputs", "histories"), observe=["plot_structure"])
K = "causalnex/structure/pytorch/core.py"
p("C27", "Neural structure learning respects tabu restrictions",
  "The neural structure learner keeps the weights of forbidden edges (self-loops, tabu edges, tabu parents, tabu children) at zero, with restrictions on categorical variables extended to all their columns, whatever the data.",
  "every data set, schema and tabu restriction",
  "tests learn from a few data sets",
  [K, "causalnex/structure/pytorch/notears.py"], [("bounds", K + ":NotearsMLP._bounds")], observe=["from_numpy", "from_pandas"])
p("C28", "Predictions follow the conditional tables",
  "Predicting a node from data that hold all its parents gives, row by row and under the row labels of the data, a state with the highest probability in the node's conditional table at the row's parent states, as the single column {node}_prediction; predict_probability gives one column {node}_{state} per state of the node, holding that table's probability of the state. When a parent is missing from the data, the answers are the underlying model's for the other columns of the data, given as states of the node and under the same column names, whether or not the data hold the node itself. The data passed in are never changed.",
  "every structure, every set of tables and states, every data set whose values are known states",
  "tests predict one node of one network with integer states, so labels, positions and columns coincide",
  [NW], [("complete data", NW + ":BayesianNetwork._predict_from_complete_data"), ("probabilities", NW + ":BayesianNetwork._predict_probability_from_complete_data"), ("incomplete data", NW + ":BayesianNetwork._predict_from_incomplete_data")], observe=["BayesianNetwork.predict", "BayesianNetwork.predict_probability"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
