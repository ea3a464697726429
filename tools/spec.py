#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run after adding a property or a scenario suite)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAT = "veroku/factors/categorical.py"
SPA = "veroku/factors/sparse_categorical.py"
GAU = "veroku/factors/gaussian.py"
UTI = "veroku/factors/_factor_utils.py"
FAC = "veroku/factors/_factor.py"
TPL = "veroku/factors/_factor_template.py"
SIG = "veroku/factors/_sigma_points.py"
MIX = "veroku/factors/experimental/gaussian_mixture.py"
FFA = "veroku/factors/experimental/factorised_factor.py"
NLG = "veroku/factors/experimental/nonlinear_gaussian.py"
CGR = "veroku/cluster_graph.py"
CLU = "veroku/_cg_helpers/_cluster.py"
ANI = "veroku/_cg_helpers/_animation.py"

P = []


def prop(id, title, statement, over, q, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)


# ------------------------------------------------------------------------------------------------- dense discrete
prop("C01", "Products and quotients of discrete tables are pointwise, for any scopes",
     "Multiplying (or absorbing) two dense discrete factors gives the factor over the union of their variables whose value at every joint assignment is the product of the operands' values there; dividing by a factor that is positive everywhere gives the quotient. The variable orders, overlaps, cardinalities and assignment names of the operands do not influence the values, and the assignment names are carried over. Multiplication commutes and associates, and dividing a product by one operand restores the other.",
     ["inputs", "configurations"], "every pair of scopes and orders, every cardinality, every table of non-negative reals (divisor positive)",
     "The tests multiply a handful of fixed tables in a few scope arrangements; they reach no arbitrary values and few of the axis permutations where a tensor is silently misaligned.",
     [CAT], [("binary operators align and broadcast the tensors", f"{CAT}: multiply, divide, _apply_binary_operator"), ("operator sugar", f"{FAC}: absorb, __mul__")])
prop("C02", "Cancelling discrete factors treats 0/0 as 0 and is exact elsewhere",
     "Cancelling one dense discrete factor from another gives the pointwise quotient, except that every assignment where both are zero is zero in the result; a positive value divided by zero is infinite. Multiplying a message in and cancelling it restores the original values wherever the message is positive and gives zero elsewhere, whatever the variable orders of the two factors.",
     ["inputs", "configurations"], "every pair of overlapping scopes and orders, every zero pattern in which no positive value is divided by zero, all other values arbitrary",
     "Zero patterns times axis orders is combinatorial; the tests contain one or two same-order examples, and a misaligned zero rule shows up only for particular patterns.",
     [CAT], [("special 0/0 rule in the log domain", f"{CAT}: cancel")])
prop("C03", "Marginalising a discrete factor sums over exactly the removed variables",
     "The marginal of a dense discrete factor over any subset of its variables, asked for by what to keep or by what to sum out, has the requested scope and at each assignment the sum of the factor over all completions. Cardinality-one variables and assignment names survive, and summing out in steps equals summing out at once.",
     ["inputs", "configurations"], "every table of non-negative reals, every subset and order of the requested variables, keep or sum out",
     "Tests use fixed tables and mostly scopes in table order; labels and axes can disagree only for particular subsets and orders.",
     [CAT, FAC], [("logsumexp over the removed axes, remaining names in tensor order", f"{CAT}: marginalize"), ("scope calculation", f"{FAC}: get_marginal_vars")])
prop("C04", "Observing variables of a discrete factor selects exactly that slice",
     "Reducing (observing) a dense discrete factor by values of some of its variables gives the factor over the remaining variables, in their original order, whose values are those of the original factor at the observed values. Observing in steps equals observing at once, in any order, and commutes with multiplication.",
     ["inputs", "configurations"], "every table, every observed subset, order of the observed names, and values",
     "The tests observe a few fixed values; a swapped index order is only visible for particular subset orders and unsymmetrical tables.",
     [CAT], [("tensor indexing by observed values", f"{CAT}: reduce")])
prop("C05", "Normalising, reordering, lookup and argmax of discrete tables are faithful",
     "Normalising a dense discrete factor divides every value by their total; reordering its variables, copying it, reading it as an array of assignments, or building it from a dictionary (missing assignments being zero) preserves the function it represents together with its assignment names. Looking up a value honours the order in which the variables are named, and the maximising assignment has a value no smaller than any other.",
     ["inputs", "configurations"], "every table of non-negative reals with a positive total, every variable order",
     "Only a few sample tables and orders are tested; ties, zero cells and long permutations are not reached.",
     [CAT], [("normalisation in the log domain", f"{CAT}: normalize"), ("axis moves", f"{CAT}: reorder"), ("lookup", f"{CAT}: potential"), ("argmax", f"{CAT}: argmax, argmax_assignment_names"), ("array view", f"{CAT}: dense_distribution_array")])
prop("C06", "Discrete KL-divergence is the KL-divergence: exact, non-negative, 0 iff equal",
     "The KL-divergence of two dense discrete factors over the same variables is the sum of p log(p/q) over the normalised tables (with normalize_factor=False the second table is taken as it is given, and a negative result is rejected) with 0 log 0 = 0, is infinite when the second is zero where the first is not, is never negative, and is zero exactly when the two are proportional, regardless of variable order. The distance from vacuous is the divergence from the uniform table, and a uniform factor counts as vacuous.",
     ["inputs", "configurations"], "all tables of non-negative reals over the same variables, any two orders, any zero pattern",
     "Inequality over a continuum of tables; tests compare a few numbers. Message passing decides convergence on this quantity.",
     [CAT, FAC], [("KL-divergence on aligned, normalised tensors", f"{CAT}: kl_divergence, _raw_kld"), ("vacuous distance", f"{CAT}: distance_from_vacuous"), ("vacuous flag", f"{FAC}: is_vacuous")])
prop("C07", "Discrete factors compare equal exactly when they are the same function",
     "Two dense discrete factors compare equal if and only if they have the same variables and the same value (up to the documented tolerances) at every assignment, whichever variable order each uses and whichever is asked; zero values only match zero values. The comparison operators agree with the method.",
     ["inputs", "configurations"], "all pairs of tables, variable orders and zero patterns; single deviations of at least 0.01 in any log value within [-10, 10] for the tolerances",
     "A universally quantified if-and-only-if; the tests try a few equal and a few clearly different pairs.",
     [CAT, FAC], [("comparison after alignment", f"{CAT}: equals"), ("operators", f"{FAC}: __eq__, __ne__")])
# ------------------------------------------------------------------------------------------------- sparse discrete
prop("S01", "Sparse tables multiply, divide and cancel pointwise, missing entries included",
     "A sparse discrete factor stands for the function that has the listed values and its default value (zero unless given) at all other assignments; products, quotients by factors that are positive everywhere, and cancellations (0/0 = 0) of two such factors with a common default are the pointwise ones over the union of the variables. The result does not depend on variable order, on the overlap of the scopes, on the order in which entries are listed, or on whether zeros are listed or left out, and it agrees with the dense representation.",
     ["inputs", "configurations"], "every pair of scopes, every set of left-out cells, zero or positive default, arbitrary positive stored values",
     "The nested-table algorithm has different paths for same, disjoint, nested and overlapping scopes and for missing outer or inner entries; tests sample a few tables on some of them.",
     [SPA], [("nested-table binary operation", f"{SPA}: _apply_binary_operator, _any_scope_binary_operation"), ("default rules", f"{SPA}: multiply, divide, cancel")])
prop("S02", "Sparse tables marginalise, reduce, reorder and normalise like dense ones",
     "Marginalising, observing, reordering, normalising, copying, array conversion and value lookup of a sparse discrete factor treat it as the function with its listed values and the default value elsewhere, so each gives exactly what the same operation on the complete table gives, the left-out assignments included. The weight of the factor is the sum of that function.",
     ["inputs", "configurations"], "every table, every set of left-out cells, zero or positive default, every requested subset and order",
     "Which cells are left out interacts with which variables are summed or observed; tests fix both.",
     [SPA], [("grouping by kept variables", f"{SPA}: marginalize, reduce"), ("reordering of assignments", f"{SPA}: reorder, potential"), ("normalisation", f"{SPA}: normalize, weight")])
prop("S03", "Sparse divergence, argmax and equality respect the represented function",
     "The KL-divergence of sparse discrete factors is that of the functions they represent (0 log 0 = 0, infinite if the support is not contained, never negative, zero for proportional factors; with normalize_factor=False the second factor is taken as it is given, and a negative result is rejected), the distance from vacuous is the divergence from the uniform table, the maximising assignment is maximal over all assignments, and two factors compare equal exactly when they represent the same function, whatever their stored entries and defaults.",
     ["inputs", "configurations"], "every pair of tables over the same variables in any order, any sets of left-out cells",
     "Inequalities and if-and-only-if claims over a continuum of tables and all support patterns.",
     [SPA], [("divergence through the binary operation", f"{SPA}: kl_divergence, _raw_kld"), ("comparison in both directions", f"{SPA}: equals"), ("argmax", f"{SPA}: argmax")])
# ------------------------------------------------------------------------------------------------- Gaussian
prop("G01", "The two Gaussian parametrisations always describe the same function",
     "A Gaussian factor built from a covariance, mean and weight has exactly the precision, information vector and constant of that function, and the other way round; reading either set of parameters, in any order and any number of times, never changes the function. The value of the factor at a point is the same whichever form is held and however the point's variables are ordered.",
     ["inputs", "histories"], "every positive-definite covariance or precision, every mean or information vector, weight or constant, and evaluation point, up to the stated dimension; every order of reads",
     "The equivalence is between real matrix functions; tests check a few numeric matrices. A stale cache shows only after particular sequences of reads and updates.",
     [GAU], [("lazy conversion between forms", f"{GAU}: _update_covform, _update_canform, get_*"), ("evaluation", f"{GAU}: log_potential, potential")])
prop("G02", "Gaussian multiplication and division are pointwise, for any scopes and orders",
     "The product (or quotient) of two Gaussian factors, at every point of the joint variables, is the product (or quotient) of their values, whichever variables they share, in whichever order, and whichever form they hold. Multiplication commutes and associates, and dividing a product by one operand gives back the other.",
     ["inputs", "configurations"], "every pair of Gaussian functions with arbitrary parameters on 1-3 variables, every overlap and order of their scopes",
     "Index bookkeeping between differently ordered and overlapping scopes is combinatorial, and the identity is over real parameters.",
     [GAU, UTI], [("scope-aligned addition of canonical parameters", f"{GAU}: multiply, divide"), ("indexed matrix operations", f"{UTI}: indexed_square_matrix_operation")])
prop("G03", "Marginalising a Gaussian integrates out exactly the removed variables",
     "The marginal of a Gaussian factor over any subset of its variables has the corresponding sub-mean and sub-covariance of the joint and the same total weight, whether the factor is held in covariance or in canonical form and in whatever order the variables are asked for. Marginalising in steps equals marginalising at once.",
     ["inputs", "configurations"], "every positive-definite Gaussian up to the stated dimension, every subset and order of variables, keep or integrate out",
     "The canonical path is a Schur complement over real matrices with per-variable index selection; a few numeric examples cannot settle it.",
     [GAU], [("covariance-form selection and canonical Schur complement", f"{GAU}: marginalize")])
prop("G04", "Observing variables of a Gaussian evaluates it at those values",
     "Reducing a Gaussian factor by values of some variables gives the function of the remaining variables obtained by fixing those values, weight included, from either form and for any order in which the observations are listed. Observing in steps equals observing at once, and observing all variables leaves the factor's value at that point.",
     ["inputs", "configurations"], "every Gaussian with arbitrary parameters up to the stated dimension, every observed subset, order and values",
     "Equality of functions over real parameters, for every observed subset and order.",
     [GAU], [("conditioning of the canonical form", f"{GAU}: reduce")])
prop("G05", "Gaussian weights: normalising gives total one and the weight is the integral",
     "The weight of a Gaussian factor is its integral over all its variables in either form; normalising divides the function by it and changes nothing else; adding a log weight scales the function by that factor; copying gives an independent factor that is the same function.",
     ["inputs", "histories"], "every positive-definite Gaussian up to the stated dimension, in either form, before or after other reads",
     "Identity over real parameters that involves determinants and both representations' caches.",
     [GAU], [("weight bookkeeping", f"{GAU}: get_log_weight, _add_log_weight, normalize, copy")])
prop("G06", "Gaussian KL-divergence is exact, order-independent and zero only for equals",
     "The KL-divergence between two Gaussian factors equals the closed form for their normalised versions, is independent of either factor's variable order and weight, is non-negative, and is zero for factors that agree up to weight. Divergences involving vacuous factors are zero for two vacuous factors and infinite otherwise.",
     ["inputs", "configurations"], "all pairs of positive-definite Gaussians up to dimension two over the same variables in any orders",
     "An inequality and a formula over matrices; message scheduling and convergence rest on it.",
     [GAU], [("divergence", f"{GAU}: kl_divergence, _raw_kld"), ("vacuous distance", f"{GAU}: distance_from_vacuous")])
prop("G07", "Gaussian factors compare equal exactly when they are the same function",
     "Two Gaussian factors compare equal if and only if they have the same variables and the same parameters for corresponding variables (up to tolerance), irrespective of variable order and of the form each one holds, and comparing changes neither of them.",
     ["inputs", "configurations"], "all pairs of positive-definite Gaussians up to the stated dimension, any orders and forms",
     "A universally quantified if-and-only-if over real parameters.",
     [GAU], [("comparison after reordering", f"{GAU}: equals, _canform_equals, reorder")])
prop("G08", "Linear Gaussian conditionals encode exactly y = A x + noise",
     "A conditional Gaussian built from a linear transform and a noise covariance has, at every point, the value of the normal density of the conditional variables around the transformed conditioning variables. Multiplied with any proper Gaussian over the conditioning variables it gives the exact joint, and factors made from templates are the same functions over the formatted names.",
     ["inputs", "configurations"], "every transform (square or not) and positive-definite noise covariance up to the stated dimensions, every prior and evaluation point",
     "The identity is over all matrices; tests use one or two examples, none rectangular.",
     [GAU], [("construction of the joint canonical parameters", f"{GAU}: make_linear_gaussian"), ("templates", f"{GAU}: GaussianTemplate, make_factor")])
prop("G09", "Vacuous Gaussians are neutral: they carry no information and change nothing",
     "Multiplying or dividing any Gaussian by a vacuous one over the same or fewer variables leaves the function unchanged, over more variables it only extends the scope; marginals and reductions of vacuous factors are vacuous, two vacuous factors over the same variables are equal, and the flag says vacuous exactly when the precision carries no information; a mixture counts as vacuous exactly when all of its components do.",
     ["inputs", "configurations"], "every Gaussian up to the stated dimension and every overlap of scopes",
     "Special-case flags travel through every operation; tests touch a few of the combinations.",
     [GAU], [("vacuous construction and flag", f"{GAU}: make_vacuous, is_vacuous, _is_vacuous")])
# ------------------------------------------------------------------------------------------------- mixtures
prop("M01", "Gaussian-mixture products, quotients and observations act on the summed function",
     "A Gaussian mixture is the sum of its components; multiplying it by a Gaussian or another mixture, dividing it by a single Gaussian (or one-component mixture) and observing variables give mixtures whose value at every point is the product, quotient or slice of that sum. Evaluation in the linear and the log domain agree, operations keep the mixture's chosen division method, and a mixture counts as vacuous exactly if all its components do.",
     ["inputs", "configurations"], "mixtures of up to three components with arbitrary parameters and weights, every evaluation point",
     "Identity of real functions over all component parameters.",
     [MIX], [("component-wise operations", f"{MIX}: multiply, divide, reduce, log_potential, potential")])
prop("M02", "Mixture marginals, normalisation and moment matching keep the right moments",
     "Marginalising a Gaussian mixture integrates the summed function; normalising divides all components by the total weight so that the weights sum to one with unchanged proportions. Moment matching to one Gaussian keeps the total weight, the mean and the covariance of the mixture exactly, and so does splitting a one-dimensional Gaussian into three components.",
     ["inputs", "configurations"], "mixtures of up to three components of dimension one or two with arbitrary parameters and weights",
     "Moment identities over real parameters; tests check single numeric examples.",
     [MIX], [("weights", f"{MIX}: normalize, get_log_weight"), ("moment matching", f"{MIX}: moment_match_to_single_gaussian"), ("splitting", f"{GAU}: _split_gaussian")])
prop("M03", "Mixtures compare equal exactly when their components pair off",
     "Two Gaussian mixtures compare equal if and only if they have the same number of components and these can be paired off one to one such that each pair is equal within the given tolerances; the order in which components are listed and which mixture is asked make no difference.",
     ["inputs", "configurations"], "mixtures of up to three components with arbitrary parameters, in every listing order",
     "Repeated and permuted components need particular coincidences that sampled tests do not contain.",
     [MIX, UTI], [("one-to-one matching", f"{MIX}: equals; {UTI}: have_one_to_one_match")])
prop("M04", "The mode of a mixture is the best local maximum; imported mixtures are kept",
     "argmax of a Gaussian mixture starts a local optimisation of the mixture's potential from the mean of every component and returns, of the runs that converged, the point at which the potential of the whole mixture is largest; it raises OptimizationFailedError if and only if no run converged, and leaves the mixture unchanged. A mixture imported from a fitted scikit-learn model has that model's weights, means and covariances, and does not follow later changes of the model.",
     ["inputs", "fault_sequences"], "mixtures of up to three components with arbitrary parameters; any points reported by the local optimiser and any pattern of runs that fail to converge",
     "Which run wins depends on the values at the reported points and on which runs fail; the optimiser is the environment here.",
     [MIX], [("best of the runs", f"{MIX}: argmax"), ("import", f"{MIX}: from_sklearn_gmm")])
prop("M05", "Mixture quotients match moments and are exact for proportional divisors",
     "With cancel_method=2, dividing a Gaussian mixture by a mixture of several components yields one component per component of the dividend: the reciprocal of the single Gaussian function that matches the total weight, the mean and the covariance of the divisor's components divided by that component. Where the divisor's components are proportional to one another the quotient is exact at every point; scaling the dividend or the divisor scales the quotient accordingly; the operands and the chosen division method are kept. With cancel_method=1 every distinct maximum of the quotient that the local optimiser finds becomes one component, which has its mean there, the curvature of the log quotient as its precision and the value of the quotient at that point, whatever the variable orders of the two. With cancel_method=0 every component is divided by the single Gaussian that matches the divisor's weight, mean and covariance.",
     ["inputs", "configurations"], "up to two by three one dimensional components with arbitrary parameters, where the dividend's components are the more precise ones; for proportional divisors of any precision, dimension <= 3 (diagonal precisions); methods 0 and 1 in the dimensions and component counts listed in the evidence, for every point the local optimiser and every curvature the numeric differentiation may report",
     "Involves complex logarithms of negative determinants; an identity over real parameters that single numeric examples do not settle.",
     [MIX, GAU], [("method 2", f"{MIX}: _gm_division_m2, _moment_match_complex_gaussian, _complex_cov_form_to_real_canform"), ("methods 0 and 1", f"{MIX}: divide, _gm_division_m1, _get_inverse_gaussians"), ("reciprocal", f"{GAU}: _invert, _get_complex_log_weight")])
# ------------------------------------------------------------------------------------------------- factorised
prop("F01", "A factorised factor always equals the product of its parts",
     "The joint of a factorised factor is the product of its parts; multiplying or dividing by a factor changes that joint by exactly that factor, whether or not some part already covers the factor's variables, and the scope grows accordingly; dividing by a factor whose variables no part covers is refused. Comparison (with the tolerances given) and copying treat a factorised factor as its joint.",
     ["inputs", "histories"], "up to three Gaussian parts with arbitrary parameters and overlapping or disjoint scopes, sequences of two operations",
     "Which part absorbs a factor depends on scopes and order; the identity is over real parameters.",
     [FFA], [("absorption into the first covering part", f"{FFA}: multiply, divide, joint_distribution"), ("comparison", f"{FFA}: equals")])
prop("F02", "Factorised marginals, evidence and normalisation match those of the joint",
     "Marginalising, observing and normalising a factorised factor gives the same function as doing it to the product of its parts, including the weight of parts that are integrated out or observed entirely, and for chains of parts that share variables only indirectly.",
     ["inputs", "configurations"], "up to three Gaussian parts with arbitrary parameters, every overlap pattern and every kept or observed subset in the stated list",
     "Dependency grouping depends on the overlap pattern; tests cover one pattern each.",
     [FFA], [("grouping of dependent parts", f"{FFA}: marginalize, _merge_factors_with_shared_scope, normalize"), ("evidence split over parts", f"{FFA}: reduce; {UTI}: get_subset_evidence")])
# ------------------------------------------------------------------------------------------------- nonlinear
prop("N01", "Sigma points reproduce the mean and covariance they were drawn from",
     "The sigma points of any proper Gaussian have exactly that Gaussian's mean and covariance, and pushing them through any affine transform reproduces exactly the joint mean and covariance of the variables and their image.",
     ["inputs"], "every mean and positive-definite covariance up to dimension three, every affine transform",
     "The scaling constant depends on the dimension; tests check one numeric case.",
     [SIG], [("square-root sigma points", f"{SIG}: get_sigma_points_array, sigma_points_array_to_joint_params")])
prop("N02", "Nonlinear Gaussians are exact for affine transforms, with or without evidence",
     "For a transform that is affine, the joint of a nonlinear Gaussian conditional with a Gaussian over its conditioning variables is the exact joint, and so are the results of absorbing and dividing factors over the conditional or conditioning variables, observing variables on either side in any combination, and marginalising. Without enough information about the conditioning variables the joint is vacuous, and the mixture version gives the mixture of the component results. Absorbing or cancelling a vacuous factor, which is a constant function, scales the result by that constant. None of this depends on which parameters were asked for in between, on the factor or on a copy of it.",
     ["inputs", "histories", "configurations"], "every affine transform, noise covariance, prior and evidence of the stated dimensions",
     "The joint is recomputed lazily from evidence and factors; combinations of observed variables on both sides are not sampled by the tests.",
     [NLG, SIG], [("lazy recomputation of the joint", f"{NLG}: _recompute_joint, multiply, divide, reduce, marginalize"), ("mixtures of conditionals", f"{NLG}: NonLinearGaussianMixture")])
# ------------------------------------------------------------------------------------------------- cluster graphs
prop("K01", "Cluster graphs satisfy family preservation and running intersection",
     "For any list of factors, every factor is absorbed in exactly one cluster whose variables cover it, and for every unobserved variable the clusters containing it form a tree under the edges whose separators contain it. Separators only contain variables that both end points share, cluster identifiers are distinct, and observed variables appear in no separator.",
     ["configurations"], "every choice of scopes for up to four factors over up to four variables, any listing order, any evidence variable",
     "Structure over all scope combinations; tests build a few fixed graphs.",
     [CGR, CLU], [("subset absorption", f"{CGR}: _absorb_subset_factors"), ("per-variable spanning trees", f"{CGR}: _get_running_intersection_sepsets, _build_graph")])
prop("K02", "The product of the clusters is the product of the factors, given the evidence",
     "Directly after construction the product of all cluster potentials is the product of the given factors reduced by the evidence, for discrete and proper Gaussian factors and any listing order, and the given factors are left unchanged.",
     ["inputs", "configurations"], "every factor list of the stated shapes with arbitrary values, every evidence assignment",
     "Absorption order and evidence interact with scopes; tests compare a few numeric graphs.",
     [CGR], [("evidence reduction and absorption", f"{CGR}: _evidence_reduce_factors, _absorb_subset_factors, __init__")])
prop("K03", "Message passing never changes the represented joint, under any schedule",
     "After any sequence of messages along any edges, the product of the cluster potentials divided by the product of the last messages sent in each direction is still the initial joint; each message is the sender's marginal over the separator divided by the last message received over that edge. The reported posterior joint equals that joint at every stage, including before every edge has been used. Messages compare equal exactly when their ends and their factors do, and copies of messages are independent. (Gaussian factors are proper, so that every message exists.)",
     ["schedules", "inputs"], "every schedule of up to the stated number of messages on the stated graphs, all factor values",
     "All interleavings of message deliveries times all values; a run of the tests follows one schedule on one set of numbers.",
     [CGR, CLU], [("message construction and absorption", f"{CLU}: make_message, receive_message"), ("message paths", f"{CGR}: _GraphMessagePath, get_posterior_joint")])
prop("K04", "On trees, processing the graph yields exact posterior marginals everywhere",
     "When the cluster graph is a tree, processing it until convergence makes the potential of every cluster the exact marginal of the joint of all factors given the evidence, for discrete and proper Gaussian factors (weight included where the graph is connected, up to a constant between parts without a connection), so that the marginal of any variable is exact and the same whichever cluster it is read from, whatever was read from the graph before it was processed. Special evidence that is not used to reduce the factors gives the same marginals.",
     ["schedules", "inputs", "configurations"], "the stated tree shapes with all factor values and every order in which pending messages can be sent",
     "Exactness for all values and all schedules cannot be sampled; scheduling depends on divergences of the values themselves.",
     [CGR, CLU], [("scheduling by information gain", f"{CGR}: process_graph, pass_next_message"), ("marginal lookup", f"{CGR}: get_marginal")])
prop("K05", "Message scheduling always sends the most informative message and stops on time",
     "Each step sends the pending message with the largest information gain, where the gain of a never-sent message is its distance from vacuous and that of a pending update is its divergence from the one sent before; after a delivery exactly the receiver's outgoing messages are recomputed. After every delivery processing stops if the largest pending gain is at most the tolerance or the allowed number of messages has been sent (one message is always sent).",
     ["schedules", "inputs"], "every sequence of information gains (arbitrary non-negative reals) on the stated graphs, every tolerance and iteration limit in the stated range",
     "The schedule depends on real-valued comparisons; the tests exercise the sequences their numbers happen to produce.",
     [CGR], [("priority order and termination", f"{CGR}: process_graph"), ("gain updates", f"{CGR}: _GraphMessagePath.update_next_information_gain, pass_next_message")])
# ------------------------------------------------------------------------------------------------- cross-cutting
prop("X01", "Factor operations never modify their operands",
     "No operation that returns a new factor or a number (products, quotients, cancellation, marginals, observations, normalisation, divergence, comparison, evaluation, argmax, copying) changes the function, scope or variable order of any factor or argument it was given, and changing the arrays, tables and lists of a result, or those that were passed to a constructor, does not change any other factor. Cluster graphs keep their own copies of factors and evidence.",
     ["inputs", "histories"], "every public operation of every factor class with arbitrary values, followed by inspection of operands and further mutation of results",
     "Aliasing shows only when a particular result is modified after a particular operation; tests rarely look at operands again.",
     [CAT, SPA, GAU, MIX, FFA, NLG], [("copying of parameters", "copy and constructors of every factor class")])
prop("X02", "Inconsistent input is rejected instead of silently producing wrong factors",
     "Repeated variable names, missing parameters or parameters whose sizes do not match the variables, table entries outside the cardinalities, combining factors of different kinds or with conflicting cardinalities or assignment names, divergences between different scopes, evaluating a factor without exactly one value for each of its variables, observing or keeping variables a factor does not have, observing a variable twice or without exactly one value, table values outside the cardinalities, reordering to other variables, mixtures of different scopes, overlapping conditional scopes, and graph marginals over variables that no cluster covers all raise an error rather than returning a result.",
     ["inputs"], "all values of otherwise valid inputs with one listed inconsistency",
     "Each rejection must hold for every value and scope; tests try one example of some.",
     [CAT, SPA, GAU, FAC, CGR], [("argument checks", f"{FAC}: __init__; constructors and operators of the factor classes")])
prop("X03", "Templates instantiate exactly the described factor over the formatted names",
     "A factor made from a template is the factor with the template's parameters over the names obtained by formatting the template's names with the given values, or over the given names; making several factors from one template gives independent factors (changing one changes neither the template nor the others), and the arguments of the template are left alone. Names that lack a value or are given twice are refused.",
     ["inputs", "configurations"], "every table or parameter set and the stated name patterns",
     "Independence and formatting must hold for all instantiations; tests make one factor per template.",
     [TPL, CAT, SPA, GAU, NLG], [("template classes", f"{TPL}; {CAT}: CategoricalTemplate; {SPA}: SparseCategoricalTemplate; {GAU}: GaussianTemplate; {NLG}: NonLinearGaussianTemplate")])
prop("X04", "Sampling draws from exactly the represented distribution",
     "Sampling a Gaussian gives the requested number of independent draws from the normal distribution with exactly its mean and covariance, one column per draw with rows in variable order; sampling a mixture chooses a component per draw with probabilities proportional to the weights and draws from the chosen component; sampling a nonlinear Gaussian or a nonlinear Gaussian mixture samples its joint.",
     ["inputs"], "every proper Gaussian up to dimension two and mixtures of up to three components, every outcome of the random source",
     "A statistical test on samples cannot pin the parameters used; the call into the random source can be examined for all parameters.",
     [GAU, MIX, NLG], [("calls into the random source", f"{GAU}: sample; {MIX}: sample"), ("delegation to the joint", f"{NLG}: sample")])
prop("X05", "Log-domain arithmetic keeps extreme but representable values accurate",
     "Factors whose values under- or overflow a double while their logs are ordinary numbers (log values or log weights of magnitude 1000 and more) are handled exactly: products, quotients, cancellations, marginals, slices, normalisation, divergences and argmax of dense and sparse tables; log potentials, log weights, products, quotients, marginals, observations, normalisation and divergences of Gaussians; log potentials, log weight, normalisation, moment matching and the component probabilities used for sampling of mixtures. No intermediate exponential leaves the range of a double, and no information passes through a number that may vanish.",
     ["inputs"], "every table whose log values are an arbitrary shared offset of any size plus arbitrary parts per cell, every Gaussian log weight",
     "Needs values far outside what tests use; a log-sum-exp replaced by a sum of exponentials passes all of them.",
     [CAT, SPA, GAU, MIX], [("log-domain computation", "special.logsumexp and log-domain sums in all factor classes"), ("relative weights", f"{MIX}: moment_match_to_single_gaussian, sample")])
prop("X06", "Drawn cluster graphs and animation frames show the graph and every message",
     "The drawing of a cluster graph has one node per cluster and, for every two linked clusters, one box naming their separator, joined to both by lines. When message passing is animated, every message that was passed is shown, in order, by frames of the whole graph in which exactly the sending cluster, the separator's two lines and the receiving cluster are coloured, each beginning and ending in that turn, and which end with a plain frame; saving the animation writes all the frames in order. Animating leaves the drawing of the graph as it was. Showing a graph displays that drawing, and saving it writes that drawing to the given file. Variable names containing characters that are special in regular expressions make no difference.",
     ["histories", "configurations", "inputs"], "every list of scopes of the stated sizes, and every schedule of messages that any information gains can produce",
     "The frames are pictures that no test looks at; which message comes when depends on all information gains.",
     [ANI, CGR], [("recolouring of the graph source", f"{ANI}: add_message_pass_animation_frames"), ("drawing and frames", f"{CGR}: _build_graph, process_graph, make_message_passing_animation_gif")])
prop("X07", "Printed tables, arrays and data frames show every assignment with its value",
     "The text of a table (repr, str, show, and messages carrying it) has a header naming its variables and one line per assignment with the table's value at that assignment to four decimals; a sparse table may leave out only assignments that share its default value. The distribution array and the data frame list every assignment once, by index or by assignment name, under the right variables and with its value. The text of a Gaussian shows its variables and its canonical parameters, and its covariance, mean and log weight if it is proper (a vacuous Gaussian can be printed too); mixtures, factorised and nonlinear Gaussians show each of their parts. Printing changes nothing.",
     ["inputs"], "every table and every Gaussian of the stated shapes, from every origin",
     "A wrong pairing of assignments and values in an output is visible only if every cell is compared with the factor; the tests only call these functions.",
     [CAT, SPA, GAU, MIX, FFA, NLG], [("text and data frames of tables", f"{CAT}: __repr__, show, dense_distribution_array, get_df; {SPA}: __repr__, show, dense_distribution_array"), ("text of Gaussians", f"{GAU}: __repr__, show; {MIX}: show; {FFA}: show; {NLG}: show")])
prop("X08", "Plots draw the factor's own potential and the graph's own records",
     "Plotting a one-dimensional Gaussian or Gaussian mixture draws, at every point of the plot, its potential (or, with log=True, its log-potential: for a mixture the log of the sum of its components) over exactly the given limits, or by default over a range that reaches beyond the mean of every component by at least one standard deviation; a two-dimensional one is drawn as contours over the variables named on the axes. Showing the individual components adds one curve per component. A nonlinear Gaussian and a nonlinear mixture draw their current joint distribution. show_vis draws the covariance and the mean under the right variable names. A categorical factor draws one bar per assignment, labelled with its assignment names (or indices), of the length of its value. A cluster graph draws one curve of information gains per message path (named after sender and receiver), and every recorded distance at its iteration, marking exactly the infinite ones. Drawing changes nothing.",
     ["inputs"], "every Gaussian, mixture and table of the stated shapes, every list of gains and distances",
     "What is drawn is not a return value, so the tests do not look at it; the figures are what users judge factors and convergence by.",
     [GAU, MIX, NLG, CAT, CGR, UTI], [("potentials", f"{GAU}: plot, _plot_2d, show_vis; {MIX}: plot, _plot_2d; {NLG}: plot; {UTI}: plot_2d"), ("bars", f"{CAT}: plot"), ("message passing", f"{CGR}: plot_next_messages_info_gain, plot_message_convergence")])

NOT_APPLICABLE = {}


def main():
    sys.path.insert(0, ROOT)
    have = {}
    try:
        from vsym import runner
        have = runner.load_props()
    except ImportError as e:
        print("warning: scenarios not loaded:", e)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i in have:
            checks.append({
                "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                "technique": "symbolic execution of the real Python source; claims decided by z3 over all real inputs "
                             "within the stated bounds, counterexamples replayed",
                "level": "model_checking",
                "level_note": "bounded: scenarios " + ", ".join(f"{s.name} ({s.bounds})" if s.bounds else s.name for s in have[i]) +
                              "; exact-real semantics, numpy/scipy kernels replaced by their mathematical definitions"})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo; the checks load /repo's current source through vsym/loader.py on every run."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
