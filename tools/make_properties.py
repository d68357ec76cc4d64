"""Writes /verif/properties.jsonl (kept as code so that ids and wording stay reviewable)."""
import json, os
E="infomeasure/estimators/entropy/"; MI="infomeasure/estimators/mutual_information/"; TE="infomeasure/estimators/transfer_entropy/"
U="infomeasure/estimators/utils/"; B="infomeasure/estimators/base.py"; F="infomeasure/estimators/functional.py"; MX="infomeasure/estimators/mixins.py"
CF="infomeasure/utils/config.py"; DT="infomeasure/utils/data.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title)); 
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

TESTS="The unit tests pin a few dozen fixed arrays (and seeded random ones) to stored numbers; "
p("E01","Plug-in entropy is the Shannon entropy of the empirical distribution",
 "For every non-empty sample of discrete symbols (integers, strings, booleans, floats; one variable or several taken jointly as tuples) and every admissible logarithm base, the discrete entropy equals the Shannon entropy of the relative symbol frequencies. The local value of each observation is minus the logarithm of its own symbol's (or tuple's) relative frequency. Building the same estimator from (positive) symbol counts gives the same entropy.",
 ["inputs","configurations"],"all finite samples, dtypes, numbers of joint variables, bases",
 TESTS+"they cannot cover dtypes, joint tuples, extreme counts and bases for every sample.",
 [E+"discrete.py",B,U+"ordinal.py",DT,U+"exponential_family.py"],[("symbol counting",DT+":DiscreteData.from_data"),("joint space reduction",U+"ordinal.py:reduce_joint_space"),("plug-in sum",E+"discrete.py")],
 ["im.entropy(approach='discrete')","estimator.local_vals()","DiscreteEntropyEstimator.from_counts"])
p("E02","Bias-corrected discrete entropies equal their documented formulas",
 "For every sample of discrete symbols, single or joint, the Miller-Madow, Grassberger, shrinkage, Chao-Shen, Chao-Wang-Jost, Bayesian, Zhang, Bonachela and ANSB entropies equal the closed formula given in their documentation, evaluated on the sample's symbol counts, parameters and logarithm base. The NSB entropy is the ratio of its two posterior integrals (expected entropies weighted over the pseudo-count from 0 to log K, as the reference values pin it), hence a mean of expected entropies. Where local values are offered, they equal the documented per-symbol contribution of the observed symbol. An estimator built from the (positive) symbol counts alone gives the same entropy.",
 ["inputs","configurations"],"all count vectors (including singletons, doubletons, one-symbol samples, all-distinct samples), parameter choices and bases",
 TESTS+"branch points of the formulas (no doubletons, all singletons, K=1, large counts) are hit by a handful of arrays only.",
 [E+f for f in("miller_madow.py","grassberger.py","shrink.py","chao_shen.py","chao_wang_jost.py","bayes.py","zhang.py","bonachela.py","ansb.py","nsb.py")],
 [("closed-form estimators",E+"*.py")],["im.entropy(approach=...)","estimator.local_vals()"])
p("E03","Discrete measures depend only on the coincidence pattern of symbols",
 "Renaming the symbols of any variable injectively (including changing their type), and reordering samples in every variable by the same permutation (for measures without time order), changes no discrete entropy, mutual information, conditional mutual information, transfer entropy or conditional transfer entropy of any discrete approach, nor any cross-entropy or divergence when both sides are renamed alike; local values stay attached to their samples. Joining a variable with a copy of itself changes no joint entropy.",
 ["inputs","configurations"],"all samples, all injective renamings and permutations, all discrete approaches incl. NSB",
 "Tests never compare two encodings of the same data; mistakes in symbol coding (type promotion, index packing, overflow) only appear on unusual alphabets.",
 [B,DT,U+"ordinal.py",U+"discrete_interaction_information.py",U+"te_slicing.py"],[("symbol coding",U+"ordinal.py:reduce_joint_space"),("contingency tables",U+"discrete_interaction_information.py")],
 ["im.entropy/mi/cmi/te/cte/kld/jsd/hx for all discrete approaches"])
p("E04","Plug-in quantities obey Shannon's inequalities and chain rules",
 "For all discrete data the plug-in quantities satisfy: 0 <= H(X) <= log(number of observed symbols) <= log N; H(X,Y) >= max(H(X),H(Y)) and <= H(X)+H(Y); mutual information, conditional mutual information, transfer entropy and conditional transfer entropy are non-negative, symmetric in their exchangeable arguments, and bounded by the entropies involved; I(X;X)=H(X); I(X;f(X))=H(f(X)); I(X;constant)=0; I(X;Y,Z)=I(X;Z)+I(X;Y|Z); processing a variable never increases mutual information; repeating the whole sample any number of times changes none of the non-temporal quantities. The NSB entropy, when defined, lies in [0, log K], and an estimate that is undefined is reported as NaN with no exception (and no crash).",
 ["inputs"],"all finite discrete samples of any number of variables",
 "Laws relate results of several calls on the same arbitrary data; stored expected numbers do not express them.",
 [E+"discrete.py",E+"nsb.py",MI+"discrete.py",TE+"discrete.py",U+"discrete_interaction_information.py"],[("contingency-table MI/CMI",U+"discrete_interaction_information.py")],
 ["im.entropy, im.mi, im.cmi, im.te, im.cte with approach='discrete'/'nsb'"])
p("I01","Mutual information is the sum of marginal entropies minus joint entropy",
 "For every entropy-based approach and any number (two or more) of equally long variables, mutual information equals the sum of the single-variable entropies minus the joint entropy, each estimated by the same approach with the same parameters and base. This holds for data of any length, any number of variables, constant variables and large counts; the shrinkage approach, which is documented to average per-sample local values, satisfies the identity per sample instead.",
 ["inputs","configurations"],"all data, number of variables, all entropy-based approaches (discrete family, ordinal, kernel, Renyi, Tsallis)",
 "Tests check it on a few two- and three-variable arrays; overflow, constant-variable and mixed-dimensional cases are outside the sample.",
 [MI+f for f in("discrete.py","miller_madow.py","grassberger.py","shrink.py","bayes.py","chao_shen.py","chao_wang_jost.py","zhang.py","bonachela.py","nsb.py","ansb.py","renyi.py","tsallis.py")]+[B,U+"discrete_interaction_information.py"],
 [("generic MI from entropies",B+":_generic_mi_from_entropy"),("contingency tables",U+"discrete_interaction_information.py")],["im.mi(*vars, approach=...)","im.entropy(...)"])
p("I02","Conditional mutual information equals its entropy combination",
 "For every entropy-based approach and any number of variables plus a condition, conditional mutual information equals the sum of the entropies of each variable joined with the condition, minus the joint entropy of all variables with the condition, minus (for the documented general form) the entropy of the condition, each estimated by the same approach and parameters. Where a tuple of conditions is accepted (discrete approach) it is treated as their joint variable, and conditioning on a constant gives the unconditional mutual information.",
 ["inputs","configurations"],"all data, number of variables, all entropy-based approaches",
 "Same as for mutual information; conditions with several columns or tuples are sampled once or not at all.",
 [MI+f for f in("discrete.py","miller_madow.py","grassberger.py","shrink.py","bayes.py","chao_shen.py","chao_wang_jost.py","zhang.py","bonachela.py","nsb.py","ansb.py","renyi.py","tsallis.py")]+[B,U+"discrete_interaction_information.py"],
 [("generic CMI from entropies",B+":_generic_cmi_from_entropy"),("contingency tables",U+"discrete_interaction_information.py")],["im.cmi(*vars, cond=..., approach=...)"])
p("T01","Transfer entropy is CMI over the documented embedding windows",
 "For every discrete-family approach, history lengths, step size and propagation time, transfer entropy from source to destination equals the conditional mutual information (same approach) between the destination's present value and the source's history given the destination's history, over exactly the time points at which both full histories exist on the documented step grid.",
 ["inputs","configurations"],"all pairs of series, all history lengths, step sizes, propagation times, all discrete approaches",
 "Window index arithmetic (histories of different lengths, steps > 1, propagation shift) is tested on few parameter combinations with regression numbers, not against an independent embedding.",
 [U+"te_slicing.py",U+"discrete_transfer_entropy.py",B]+[TE+f for f in("discrete.py","miller_madow.py","grassberger.py","shrink.py","bayes.py","chao_shen.py","chao_wang_jost.py","zhang.py","bonachela.py","nsb.py","ansb.py")],
 [("window construction",U+"te_slicing.py:te_observations"),("TE combination",B+":_generic_te_from_entropy")],["im.te(..., src_hist_len, dest_hist_len, step_size, prop_time)"])
p("T02","Conditional transfer entropy is CMI over the documented windows",
 "For every discrete-family approach, conditional transfer entropy from source to destination given a third series equals the conditional mutual information (same approach) between the destination's present value and the source's history given the destination's history joined with the condition's history, over exactly the time points at which all three full histories exist on the documented step grid. Conditioning on a constant series with unit history gives the unconditional transfer entropy.",
 ["inputs","configurations"],"all triples of series, all three history lengths, step sizes, all discrete approaches",
 "Three history lengths times step sizes times eleven approaches; tests sample a few combinations with regression numbers.",
 [U+"te_slicing.py",U+"discrete_transfer_entropy.py",B]+[TE+f for f in("discrete.py","miller_madow.py","grassberger.py","shrink.py","bayes.py","chao_shen.py","chao_wang_jost.py","zhang.py","bonachela.py","nsb.py","ansb.py")],
 [("window construction",U+"te_slicing.py:cte_observations"),("CTE combination",B+":_generic_cte_from_entropy")],["im.cte(..., src_hist_len, dest_hist_len, cond_hist_len, step_size)"])
p("T03","Time offsets and propagation times are plain shifts of the data",
 "For every approach, the mutual information of two variables with a time offset equals the zero-offset value on the data with the trailing part of the first and the leading part of the second variable cut off by that many samples; transfer entropy with a propagation time (argument prop_time, or its alias offset) equals the zero-lag value on the series with the source delayed by propagation time times step size samples. A negative value mirrors the positive one with the roles exchanged. Conditional mutual information, conditional transfer entropy and mutual information of more than two variables refuse a non-zero offset instead of ignoring it.",
 ["inputs","configurations"],"all data, all offsets within the data length, all approaches",
 "Tests use one or two offsets on a few approaches; off-by-one shifts on one approach remain invisible.",
 [B,MX]+[MI+f for f in("kernel.py","ordinal.py","kraskov_stoegbauer_grassberger.py")]+[U+"te_slicing.py"],
 [("offset shift",B+":MutualInformationEstimator.__init__"),("propagation shift",B+":TransferEntropyEstimator.__init__")],["im.mi(offset=)","im.te(prop_time= / offset=)"])
p("L01","Global values are the mean of local values; unsupported locals are refused",
 "For every measure and approach that offers local values (other than shrinkage, documented not to), the global value equals the arithmetic mean of the local values, one finite local value exists per sample (per embedded window for time-windowed measures), and reading either first does not change the other. Approaches without local values raise an error when asked for them instead of returning numbers.",
 ["inputs","configurations"],"all data and parameters, all measures and approaches, both reading orders",
 "Tests assert it on a few arrays per estimator; dimension, window and parameter combinations are open-ended.",
 [B,E+"*.py",MI+"*.py",TE+"*.py",U+"discrete_interaction_information.py"],[("result/local evaluation",B+":Estimator.global_val/local_vals")],
 ["estimator.local_vals()","estimator.result()/global_val()"],[("cached result","result and local values are computed lazily and cached",B+":Estimator.res_global/res_local")])
p("B01","Changing the logarithm base rescales every result by a constant",
 "For every measure and approach whose quantity is a logarithm (all except Renyi and Tsallis generalised forms where documented otherwise), the value in base b equals the natural-log value divided by ln b, for global values, local values and composite measures alike, and b='e', 2 and 10 are no special cases. This holds for every base above one; entropies, cross-entropies and divergences also for bases between zero and one.",
 ["inputs","configurations"],"all data, all bases greater than one, all measures and approaches",
 "Each approach applies the base in its own place (several terms each); tests use base 2, e and 10 on few arrays and approaches.",
 [B,E+"*.py",MI+"*.py",TE+"*.py","infomeasure/composite_measures/*.py"],[("logarithm selection",B+":Estimator._log_base / mixins")],["any measure with base=..."])
p("B02","The configured default unit governs every later calculation",
 "After changing the configured default logarithm base or information unit, every measure of every approach called without an explicit base returns what it would return with that base given explicitly, through every entry point (functional, estimator object, class), and an explicit base always wins over the configured one. Resetting the configuration restores the original results exactly.",
 ["histories","configurations"],"all interleavings of configuration changes and calculations, all measures and approaches",
 "Tests only read back the stored setting; they do not interleave configuration changes with calculations.",
 [CF,B,F],[("configured default","infomeasure/utils/config.py:Config.get/set"),("default base of estimators",B+":Estimator.__init__")],["im.Config.set/set_logarithmic_unit/reset then any measure"],
 [("Config","process-wide settings",CF)])
p("S01","Statistical tests draw a genuine null distribution and summarise it correctly",
 "For every approach and every measure offering statistical tests (MI, CMI, TE, CTE), each value of the null sample equals the measure recomputed with the samples of the first variable (for transfer entropies: the source history vectors of the embedding windows) permuted, respectively resampled with replacement, and everything else in place, so a dependent data set yields varying null values. The p-value is the fraction of null values exceeding the observed value, the t-score, mean, standard deviation, percentiles and confidence intervals are those of the reported null values, the configured defaults apply when arguments are omitted, and the observed value, data and later results of the estimator are unchanged by running a test.",
 ["inputs","histories","configurations"],"all data sets, all approaches with tests, both methods, all n_tests, all interleavings with result queries",
 "Tests assert p in [0,1] and types; a null that never varies, is drawn for the wrong variable or leaks state still satisfies them.",
 [MX,B,DT,MI+"*.py",TE+"*.py",U+"te_slicing.py"],[("test driver",MX+":StatisticalTestingMixin"),("source permutation",U+"te_slicing.py"),("recalculation",B)],
 ["estimator.statistical_test(), p_value(), t_score()"],[("permute/resample flags","make the next calculation shuffle the source",B+":TransferEntropyEstimator")])
p("S02","Effective transfer entropy subtracts a shuffled-source surrogate",
 "For every approach, effective (conditional) transfer entropy equals the transfer entropy minus the transfer entropy of the same data with the source's history vectors shuffled among the embedding windows; it differs from the plain value whenever every shuffle has non-zero transfer entropy, it is attainable by some shuffle of the source, and computing it leaves later results and the data untouched.",
 ["inputs","histories"],"all pairs/triples of series, all approaches, all history lengths",
 "Tests compare it with itself under a seed or only check it is a float.",
 [MX,B,TE+"*.py",U+"te_slicing.py"],[("effective value",MX+":EffectiveValueMixin"),("source permutation",U+"te_slicing.py")],["estimator.effective_val()","im.te(..., return effective)"],
 [("permute flag","shuffle request for next calculation",B)])
p("H01","Results are pure: independent of call history, caller data untouched",
 "The value returned by any measure depends only on its arguments and the configuration, not on earlier calls, on the order in which results, local values, tests and distributions are read from an estimator, or on other estimators alive at the same time. No call modifies the arrays passed in, aliases its results to them, or changes the configuration or other global state, calls running in several threads do not influence each other, an operation that was refused or interrupted midway leaves later results unaffected, and repeated evaluation without added noise is bit-for-bit reproducible.",
 ["histories","inputs"],"all sequences of construct / read / test operations over several live estimators and shared input arrays",
 "Needs sequences of calls over shared data; each unit test constructs a fresh estimator and calls it once.",
 [B,MX,E+"*.py",MI+"*.py",TE+"*.py",F],[("lazy cached evaluation",B+":Estimator"),("in-place data handling",B+" / estimators")],["estimator objects used in sequences"],
 [("cached results","res_global/res_local",B),("input arrays","caller-owned numpy arrays","caller")])
p("A01","All entry points and names of a measure agree",
 "The functional call, the estimator object, and direct use of the documented estimator class give the same value for the same data and parameters for every measure and approach; every documented alias of a measure or approach and any letter case selects the same computation; passing data as lists, tuples or arrays, and parameters by any documented route, makes no difference, and no parameter documented for a measure and approach is silently ignored.",
 ["inputs","configurations"],"all measures x approaches x aliases x parameter settings x container types",
 "The dispatch table has ~100 cells times parameters; tests cover most names but compare with default parameters on one array.",
 [F,"infomeasure/__init__.py",E+"__init__.py",MI+"__init__.py",TE+"__init__.py"],[("dispatch",F+":estimator/get_estimator_class")],["im.entropy/mi/cmi/te/cte/hx/jsd/kld, im.estimator, im.get_estimator_class"])
p("A02","Invalid requests are refused with a value or type error, never answered",
 "Unknown measures or approaches, missing approach-specific parameters, parameters outside their documented domain (embedding dimension, step size, neighbour count, bandwidth, kernel, order, concentration, alphabet size, metric, history length, propagation time, negative or non-numeric logarithm base, number and kind of tests), and data of unequal length, empty data or series too short for the requested windows raise an error naming a bad value or type before any number is returned; valid requests next to the boundary are answered. An estimator that refused a request has not changed any global state.",
 ["inputs","configurations"],"all measures and approaches with each argument replaced by an inadmissible one, and boundary-admissible counterparts",
 "Tests list a few invalid values per estimator; validation missing for one combination silently produces numbers.",
 [F,B,E+"*.py",MI+"*.py",TE+"*.py",U+"te_slicing.py",MX],[("validation","constructors of estimators"),("dispatch",F)],["exceptions raised by the public API"])
p("A03","Degenerate data get a proper number or are refused with a value error",
 "For every measure and approach and every well-formed data set, however degenerate (constant variables, repeated samples, two distinct values, all values distinct, a single deviating value, variables that are copies or affine images of each other, periodic or sorted series, fewer samples than usual, negative zeros, logical values), a request either returns a finite real scalar (not-a-number only from the NSB and asymptotic NSB estimators, which document it) or is refused with an error that is a ValueError; it is the same through the function and the estimator object and on asking again, local values are finite, one per sample, and average to it, a constant variable shares no plug-in, ordinal or box-kernel information, and statistical tests on such data give p-values in [0, 1] and as many test values as asked for.",
 ["inputs","configurations"],"all measures and approaches over degenerate data sets",
 "Zero distances, zero variances, empty cells and single-valued alphabets are where formulas divide by zero; the tests use generic random data almost everywhere.",
 [B,E+"*.py",MI+"*.py",TE+"*.py",U+"*.py"],[("degenerate branches","estimators' _simple_entropy/_calculate methods")],["im.entropy/mi/cmi/te/cte/hx/kld/jsd","global_val/local_vals/statistical_test"])
p("K01","Kozachenko-Leonenko entropy and cross-entropy equal the formula",
 "For every point set with non-coincident k-th neighbours, any dimension, k and Minkowski metric, the metric entropy equals -psi(k)+psi(N)+log c_d+(d/N) sum of log twice the distance to the k-th neighbour, computed from exhaustively calculated distances, and local values are the per-point terms. The cross-entropy uses distances from each point of the first set to its k-th neighbour in the second set with the documented sample-size term.",
 ["inputs","configurations"],"all point sets, dimensions, k, metrics, bases",
 TESTS+"neighbour search is never compared with exhaustive distances over varied k, metric, dimension and tie patterns.",
 [E+"kozachenko_leonenko.py",U+"unit_ball_volume.py"],[("k-d tree query",E+"kozachenko_leonenko.py"),("unit ball volume",U+"unit_ball_volume.py")],["im.entropy/hx(approach='metric')"])
p("K02","KSG mutual information equals the exhaustive neighbour-count formula",
 "For every data set, number of variables, dimension of each, k, Minkowski metric and algorithm type, the KSG mutual information and conditional mutual information equal the Kraskov-Stoegbauer-Grassberger (respectively Frenzel-Pompe) formula evaluated with exhaustively computed k-th neighbour distances and neighbour counts in the marginal spaces, for local and global values. Added symmetry-breaking noise has the documented amplitude, is drawn once per variable, and a zero noise level leaves the data untouched.",
 ["inputs","configurations"],"all point sets (including lattices with ties), dimensions, k, metrics, both types",
 "Strict versus non-strict neighbour counting and per-variable dimensions only matter on ties or multi-dimensional data, which stored numbers on random floats do not reach.",
 [MI+"kraskov_stoegbauer_grassberger.py",B],[("neighbour counting",MI+"kraskov_stoegbauer_grassberger.py")],["im.mi/cmi(approach='metric', k, ksg_id, noise_level, minkowski_p)"])
p("K03","KSG transfer entropy equals KSG counting over the documented windows",
 "For every pair (or triple) of real-valued series, history lengths, step size, propagation time, k and metric, KSG transfer entropy and conditional transfer entropy equal the neighbour-count formula evaluated by exhaustive search on independently constructed embedding windows, for local and global values and both algorithm types where offered.",
 ["inputs","configurations"],"all series, history lengths, steps, propagation times, k, metrics",
 "Window layout and subspace selection (which columns belong to which marginal) can be wrong for histories longer than one only; tests use stored numbers.",
 [TE+"kraskov_stoegbauer_grassberger.py",U+"te_slicing.py"],[("subspace neighbour counting",TE+"kraskov_stoegbauer_grassberger.py"),("window construction",U+"te_slicing.py")],["im.te/cte(approach='metric')"])
p("K04","Renyi and Tsallis entropies equal the neighbour-distance formula",
 "For every point set, k and order, Renyi and Tsallis entropies equal the Leonenko-Pronzato-Savani formulas evaluated with exhaustively computed neighbour distances, at order one they give the Shannon limit, the two families are linked by their exact analytic relation, and their mutual, conditional and transfer measures equal the corresponding combination of entropies over the documented windows, with noise of the documented amplitude added to each variable once when asked for.",
 ["inputs","configurations"],"all point sets, dimensions, k, orders including one",
 "Order and k enter several terms; tests pin numbers for few (k, order) pairs and never relate the families.",
 [E+"renyi.py",E+"tsallis.py",U+"exponential_family.py",MI+"renyi.py",MI+"tsallis.py",TE+"renyi.py",TE+"tsallis.py"],[("exponential family formulas",U+"exponential_family.py")],["im.entropy/mi/cmi/te/cte(approach='renyi'|'tsallis')"])
p("K05","Continuous estimators respect translation, scaling and sample order",
 "Translating data by a constant leaves every metric, kernel, Renyi and Tsallis measure unchanged; multiplying all data by a factor a adds d*log|a| to the d-dimensional metric and Shannon-limit entropies, leaves KSG measures unchanged, and with bandwidth scaled alike leaves kernel MI-type measures unchanged; reordering samples jointly leaves non-temporal measures unchanged and permutes local values. Swapping the arguments of mutual information, or coordinates within a vector variable, changes nothing.",
 ["inputs"],"all data sets and transformations exactly representable in floating point",
 "Metamorphic relations over arbitrary data; no unit test transforms its input.",
 [E+"kozachenko_leonenko.py",E+"kernel.py",E+"renyi.py",E+"tsallis.py",MI+"kraskov_stoegbauer_grassberger.py",MI+"kernel.py",TE+"kraskov_stoegbauer_grassberger.py",TE+"kernel.py",U+"kde.py"],[("neighbour search","k-d tree queries"),("density estimate",U+"kde.py")],["im.* continuous approaches"])
p("D01","Kernel entropy is the mean negative log of the documented density estimate",
 "For every data set, dimension and bandwidth, kernel entropy equals the mean of minus the log of the kernel density at the sample points, where the box density counts the points within half a bandwidth per coordinate (boundary included) divided by N times the window volume, and the Gaussian density is the standard Gaussian kernel estimate with that bandwidth factor; local values are the per-point terms. Worker count and data layout never change the result.",
 ["inputs","configurations"],"all point sets, dimensions, bandwidths, kernels, worker counts",
 TESTS+"box boundaries, degenerate covariances and the parallel path for large data are not compared with a direct evaluation.",
 [E+"kernel.py",U+"kde.py"],[("density estimation",U+"kde.py:kde_probability_density_function"),("parallel evaluation",U+"kde.py")],["im.entropy/hx(approach='kernel')"])
p("D02","Kernel MI, CMI, TE and CTE are log ratios of the same densities",
 "For every data set, kernel, bandwidth and window parameters, kernel mutual information, conditional mutual information, transfer entropy and conditional transfer entropy equal the mean log ratio of joint and marginal kernel densities in exactly the subspaces the documented formula names, with all coordinates of vector-valued variables and conditions included; local values are the per-sample log ratios.",
 ["inputs","configurations"],"all data sets, dimensions of each variable, kernels, bandwidths, history lengths, steps",
 "Column selection errors show only for vector-valued variables or histories longer than one; tests use scalar variables and stored numbers.",
 [MI+"kernel.py",TE+"kernel.py",U+"kde.py",U+"te_slicing.py"],[("subspace densities",MI+"kernel.py / "+TE+"kernel.py")],["im.mi/cmi/te/cte(approach='kernel')"])
p("O01","Ordinal entropy is the entropy of ordinal patterns, ties included",
 "For every series, embedding dimension and step size, the ordinal entropy (single or joint) equals the Shannon entropy of the rank-order patterns of all windows, with equal values ranked by time order when stable ordering is asked for, and the same pattern definition is used for every embedding dimension, for single, joint, cross-entropy and divergence computations. The reported distribution assigns each pattern its relative frequency and local values belong to the windows in time order.",
 ["inputs","configurations"],"all series (with and without ties), embedding dimensions, step sizes",
 "Special code paths exist per embedding dimension and per joint/cross use; tests contain few ties and never compare the paths with each other.",
 [E+"ordinal.py",U+"ordinal.py"],[("symbolisation",U+"ordinal.py:symbolize_series"),("fast paths",E+"ordinal.py")],["im.entropy/hx/kld/jsd(approach='ordinal')","estimator.dist_dict","estimator.local_vals()"])
p("O02","Ordinal measures see only the order of values",
 "Applying a strictly increasing function to any variable leaves every ordinal measure (entropy, joint and cross-entropy, MI, CMI, TE, CTE, divergences) and its local values unchanged; negating tie-free data leaves entropies unchanged; entropy lies between 0 and log(min(number of windows, m!)), is 0 for monotone series, and embedding dimension one gives zero.",
 ["inputs","configurations"],"all series, strictly increasing maps, embedding dimensions, step sizes",
 "Metamorphic relation over arbitrary inputs; no unit test transforms its input.",
 [E+"ordinal.py",MI+"ordinal.py",TE+"ordinal.py",U+"ordinal.py"],[("symbolisation",U+"ordinal.py")],["im.* with approach='ordinal'"])
p("O03","Ordinal MI, CMI, TE and CTE are the discrete measures of pattern series",
 "For every series, embedding dimension, step size and history lengths, ordinal mutual information, conditional mutual information, transfer entropy and conditional transfer entropy equal the plug-in measure of the independently symbolised pattern series, global and local, with window parameters applied to the pattern series as documented.",
 ["inputs","configurations"],"all series (with ties), embedding dimensions, steps, history lengths, offsets",
 "Combination of two windowing stages; tests use stored numbers for a few combinations.",
 [MI+"ordinal.py",TE+"ordinal.py",U+"ordinal.py",U+"te_slicing.py"],[("symbolisation then slicing",TE+"ordinal.py"),("reduction",U+"ordinal.py")],["im.mi/cmi/te/cte(approach='ordinal')"])
p("X01","Cross-entropy equals its formula over the two empirical distributions",
 "For every pair of samples and every approach supporting it, cross-entropy equals minus the p-weighted sum (or average over the first sample) of the log of the second distribution as estimated by that approach, over the symbols both samples share, is 0 with a warning when they share none, need not be symmetric, accepts samples of different lengths, and reduces to the entropy when both samples have the same distribution (discrete approach).",
 ["inputs","configurations"],"all pairs of samples of any lengths and supports, all supporting approaches",
 "Support alignment between two samples (missing symbols, different lengths, order of keys) is tested on a few hand-made pairs.",
 [E+f for f in("discrete.py","miller_madow.py","bayes.py","ordinal.py","kernel.py","renyi.py","tsallis.py")]+[B],[("support alignment",E+"*.py:_cross_entropy")],["im.hx / im.entropy(p, q, approach=...)"])
p("X02","Kullback-Leibler divergence equals cross-entropy minus entropy",
 "For every pair of samples and every supported approach the Kullback-Leibler divergence equals the cross-entropy of the pair minus the entropy of the first sample under the same approach and parameters; it is zero for identical samples (discrete, Miller-Madow, Bayesian, kernel and stably ranked ordinal approaches) and non-negative for the plug-in approach whenever the second sample contains every symbol of the first; unsupported approaches are refused.",
 ["inputs","configurations"],"all pairs of samples, all approaches",
 "Tests compare with one stored value per approach; self-divergence and support cases are open-ended.",
 ["infomeasure/composite_measures/kld.py"]+[E+f for f in("discrete.py","ordinal.py")],[("composition","infomeasure/composite_measures/kld.py")],["im.kld"])
p("X03","Jensen-Shannon divergence is the mixture entropy minus mean entropy, bounded",
 "For every two or more samples of any lengths and every supported approach, the Jensen-Shannon divergence equals the entropy of the equal-weight mixture of the estimated distributions (kernel approach: of the pooled samples) minus the mean of their entropies and is symmetric in its arguments. For the plug-in and ordinal approaches it is zero for identical samples and lies in [0, log n], with log n attained exactly for pairwise disjoint supports; unsupported approaches are refused.",
 ["inputs","configurations"],"all tuples of samples with overlapping, nested or disjoint supports",
 "Tests use a few stored values; support alignment across more than two samples of different lengths is unexplored.",
 ["infomeasure/composite_measures/jsd.py",E+"ordinal.py",E+"kernel.py"],[("mixture","infomeasure/composite_measures/jsd.py")],["im.jsd"])
p("C01","Configuration behaves as a validated key-value store with defaults",
 "After any sequence of set, set-unit, get and reset operations the configuration reads back exactly the last accepted value of each key, a rejected value (unknown key, wrong type, unknown unit) raises and changes nothing, reset restores all defaults, and the reported unit name and description always correspond to the active base.",
 ["histories"],"all operation sequences with valid and invalid keys and values",
 "Tests perform single operations from the default state.",
 [CF],[("settings store",CF+":Config")],["im.Config"],[("_settings","current values by key",CF)])
p("R01","Result containers summarise exactly the data they hold",
 "A statistical-test result's percentiles and confidence intervals agree with the order statistics of the values it holds for every level and interpolation method, and invalid levels are refused. Symbol-count containers built from data or counts always satisfy total = sum of counts, K = number of distinct symbols and probabilities summing to one in matching order, and reject inconsistent, negative, non-integer or empty counts.",
 ["inputs"],"all samples of null values, levels, methods; all count vectors",
 "Tests use a fixed tiny result object; invariants quantify over all contents.",
 [DT],[("containers",DT)],["StatisticalTestResult.percentile/confidence_interval","DiscreteData.from_data/from_counts"])
p("N01","Normalising data equals normalising it by hand first",
 "Requesting normalisation in mutual-information-type continuous measures gives exactly the result of standardising each column to the documented range/scale by hand beforehand, makes KSG and kernel results invariant under any per-variable affine map with positive slope, and leaves the caller's arrays unmodified.",
 ["inputs","configurations"],"all real data sets, dimensions, affine maps, approaches offering normalisation",
 "Tests assert a number for one data set; invariance and column handling are open-ended.",
 [U+"normalize.py",MI+"kernel.py",MI+"kraskov_stoegbauer_grassberger.py",MI+"renyi.py",MI+"tsallis.py"],[("normalisation",U+"normalize.py:normalize_data_0_1")],["im.mi/cmi(normalize=True)"])
p("G01","Estimates converge to the analytic value of known distributions",
 "For data drawn from distributions whose information measures are known in closed form, with any parameters of the distribution, any approach that is consistent there and any base, the estimate from a large sample lies within a few standard errors and the method's bias of the analytic value: entropies, joint and cross-entropies, divergences, mutual and conditional mutual information of discrete and normal variables, transfer entropies of noisy lagged copies and linear Gaussian processes in the right direction at the right lag (and nothing in the wrong direction or once the condition explains the source), and ordinal entropies of i.i.d. series.",
 ["inputs","configurations"],"all parameters of the distribution families, measures, consistent approaches, bases, window parameters",
 TESTS+"a few check Gaussian data at fixed parameters; a misplaced lag, direction, condition, normalisation or constant shared by code and test numbers only shows against the analytic truth.",
 [E+"*.py",MI+"*.py",TE+"*.py","infomeasure/composite_measures/jsd.py","infomeasure/composite_measures/kld.py"],[("estimators of every approach",E+"*.py"),("embedding",U+"te_slicing.py")],["im.entropy/hx/mi/cmi/te/cte/kld/jsd"])
p("F01","Results depend on the values passed, not on how they are stored",
 "For every measure and approach, the global and local results are the same (to rounding) for the same numbers whatever form each variable is passed in: any integer width, signed or unsigned, that holds them, half, single or double precision that holds them exactly, booleans, either byte order, lists, and contiguous, Fortran-ordered, strided, reversed, column-sliced, unaligned or read-only arrays, forms mixed freely between variables, and variables that share memory (one object passed several times, overlapping or reversed views of one series, columns of one table); what is refused in one form is refused in the others.",
 ["inputs","configurations"],"all numeric storage types that hold the values, memory layouts, mixtures of them between variables, measures, approaches",
 TESTS+"they pass float64 and int64 arrays made by NumPy; overflow of narrow types, wrap-around of unsigned differences, promotion between mixed types and views with odd strides are not sampled.",
 ["infomeasure/estimators/base.py","infomeasure/utils/data.py",U+"ordinal.py",U+"te_slicing.py",U+"normalize.py",E+"*.py",MI+"*.py",TE+"*.py"],[("conversion of input","infomeasure/estimators/base.py"),("joint symbols",U+"ordinal.py:reduce_joint_space"),("embedding views",U+"ordinal.py:symbolize_series"),("windows",U+"te_slicing.py")],["im.estimator","functional interface"])
p("U01","The documented building blocks equal their definitions on their own",
 "For all arguments in their documented domains, the helpers the measures are built from return what their documentation defines when called directly: transfer-entropy windows (te_observations, cte_observations; separately or as joint spaces, with the source rows permuted or resampled and everything else in place) are the index-by-index windows; symbolize_series gives the argsort pattern of each window and, as integers, its Lehmer code (the lexicographic rank, up to 20 elements); reduce_joint_space gives equal codes exactly to equal rows; the (conditional) mutual information of label arrays, global and local, is the plug-in combination in any logarithm; kernel densities at arbitrary points, k-th neighbour distances, ball volumes and rescaling to [0,1] equal their formulas. Arguments outside the domain (histories longer than the series, permuting and resampling at once, more than 20 elements) are refused.",
 ["inputs","configurations"],"all series (scalar, vector, numeric, strings), histories, steps, permutations, label arrays, points, dimensions, norms",
 TESTS+"the helper tests pin a few small arrays each; no test compares windows, codes, joint spaces or densities with an independent construction.",
 [U+"te_slicing.py",U+"ordinal.py",U+"discrete_interaction_information.py",U+"kde.py",U+"exponential_family.py",U+"unit_ball_volume.py",U+"normalize.py",U+"array.py"],[("windows",U+"te_slicing.py"),("symbols and joint space",U+"ordinal.py"),("label information",U+"discrete_interaction_information.py"),("densities",U+"kde.py")],["infomeasure.estimators.utils.*"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
