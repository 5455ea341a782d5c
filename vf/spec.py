"""The properties, and the files generated from them.

python -m vf.spec writes properties.jsonl and MANIFEST.json.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/flowstab/"
TN, NC, SSM = S + "temporal_network.py", S + "network_clustering.py", S + "sparse_stoch_mat.py"
FF, SS = S + "_cython_fast_funcs.pyx", S + "_cython_sparse_stoch.pyx"
ACC = S + "sparse_accumulator.cpp"
FS, ST = S + "flow_stability.py", S + "state_tracking.py"
PC, PE = S + "parallel_clustering.py", S + "parallel_expm.py"
SY = S + "synth_temp_network.py"
SC = S + "scripts/"


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe or ["return values and attributes of the public API"],
                        "hook_needed": None},
            "_technique": technique, "_note": note}


PROPS = [
    P("C01", "Interval Laplacians describe exactly the interactions active then",
      "For every temporal network and every time window, the Laplacian of each interval between "
      "two successive event times is that of the unweighted undirected graph of the events active "
      "during the interval (an event is active from its start up to, not including, its end), with "
      "empty rows for inactive nodes. The window starts and stops at the last event times not "
      "after the requested ones, and there is exactly one Laplacian per interval of the window.",
      ["inputs", "configurations"],
      "all event tables (ties, back-to-back, nested and opposite overlapping events of one pair, "
      "any row order) and all windows, on, between or outside the event times",
      "the tests compare a few fixed networks; overlapping events of one pair, windows between "
      "event times and recomputation for a second window are not reached",
      [TN], [("incremental adjacency update per event time", TN + ":compute_laplacian_matrices"),
             ("time grid", TN + ":_compute_time_grid")],
      "runtime monitor against a dense graph model, hostile event workloads",
      "thousands of generated event tables and windows; every interval of every case is compared "
      "with the graph rebuilt from the raw events"),
    P("C02", "Inter-event transition matrices are the random walk over the interval",
      "For every network, window and rate, the transition matrix of an interval is the exact "
      "continuous-time random walk on the graph of the interval for its duration: rows sum to one, "
      "no entry is negative, inactive nodes stay where they are and no mass crosses between "
      "components. Storage format, dense or component-wise computation and the number of processes "
      "change the representation only, never the values.",
      ["inputs", "configurations"],
      "all event tables, windows, rates, storage formats and computation options",
      "tests compare formats on one network; they never compare with the walk itself, nor small "
      "and large components, rates or windows",
      [TN, PE, SSM], [("matrix exponential per interval", TN + ":compute_inter_transition_matrices"),
                      ("component-wise exponential", TN + ":sparse_lapl_expm"),
                      ("parallel exponential", PE + ":compute_subspace_expm_parallel")],
      "runtime monitor against an eigen-decomposition oracle",
      "every interval matrix of every case is compared with an independent spectral computation"),
    P("C03", "Linear and stationary approximations follow their definition",
      "For every network, window, rate and stationarity time, the linear approximation of an "
      "interval is the stated interpolation: from the identity to one step of the walk for times "
      "up to one, from there to the stationary walk of each component at the stationarity time, "
      "and stationary afterwards; every matrix is row stochastic. Stationary transitions keep all "
      "mass inside a component in proportion to the degrees, and leave isolated nodes alone.",
      ["inputs", "configurations"],
      "all event tables, windows, rates and stationarity times, sparse or not",
      "tests reach one network and one rate, hence mostly one branch of the interpolation",
      [TN], [("linear approximation", TN + ":lin_approx_trans_matrix"),
             ("stationary transition", TN + ":compute_stationary_transition"),
             ("per-interval computation", TN + ":compute_lin_inter_transition_matrices")],
      "runtime monitor against a dense definition",
      "generated networks with intervals on all sides of both break points"),
    P("C04", "Cumulative transition matrices are the ordered products of the intervals",
      "For every network and rate, the cumulative transition matrices are the products of the "
      "interval matrices in time order (or, for reversed time, in reversed order), either all "
      "prefixes or only the last. With a tolerance each entry differs from the exact product by "
      "no more than the thresholding at each step allows, and rows still sum to one.",
      ["inputs", "configurations"],
      "all networks, rates, directions, tolerances, storage formats, exact or linear intervals",
      "tests check one network with few intervals and compare two code paths that share the bug",
      [TN, SSM], [("running product", TN + ":compute_transition_matrices"),
                  ("running product (linear)", TN + ":compute_lin_transition_matrices"),
                  ("thresholding", TN + ":set_to_zeroes")],
      "runtime monitor: dense shadow product",
      "shadow products recomputed from observed interval matrices at every prefix"),
    P("C05", "What is saved is what is loaded, and saving changes nothing",
      "Saving a network or its matrices and loading them again gives the same events, labels, "
      "times and matrices (up to the requested rounding), for whole networks, selected parts, "
      "compressed files and difference encoding alike, and the loaded network can be used like the "
      "original. Saving never modifies the network, an existing file is replaced only when asked, "
      "and distinct names never share a file.",
      ["inputs", "configurations", "histories"],
      "all networks, computed results, save options, file names and orders of save calls",
      "tests round-trip one network with default options",
      [TN], [("network files", TN + ":save, load"),
             ("matrix files", TN + ":save_inter_T, save_T, load_inter_T, load_T"),
             ("difference encoding", TN + ":_compute_delta_trans_mat")],
      "round-trip monitor with state snapshots around every save",
      "random histories of save and load calls; deep snapshot before and after each"),
    P("C06", "Compact stochastic matrices behave as the matrices they stand for",
      "Every operation on compact stochastic matrices (products, sums, differences, scaling, "
      "conversion, transposition, thresholding, serialisation) gives the result of the "
      "same operation on the full matrices, in either operand order and mixed with dense or sparse "
      "arrays. Operands keep their value.",
      ["programs", "inputs"],
      "all sequences of operations on all matrices, including all-identity, full and empty "
      "supports",
      "tests apply single operations to a few fixed sizes with sorted supports",
      [SSM, SS, ACC], [("compact representation", SSM + ":sparse_stoch_mat"),
                       ("native kernels", SS), ("sparse accumulator", ACC)],
      "shadow-value monitor over random operation programs",
      "each value carries a dense shadow; compared after each operation"),
    P("C07", "Compact covariance matrices behave as the matrices they stand for",
      "Every query of a compact covariance matrix (element, row, column, dense form, aggregation "
      "over a partition, stability changes of node moves, sums over rows, columns and submatrices, copies, test for zero) equals "
      "the same query on the full matrix.",
      ["programs", "inputs"],
      "all matrices, marginals (scalar or per node), partitions and query sequences",
      "tests query a few fixed matrices",
      [SSM, SS, FF], [("compact covariance", SSM + ":sparse_autocov_mat"),
                      ("native delta kernels", FF)],
      "shadow-value monitor over random query programs",
      "dense shadow of each matrix; native queries compared entry by entry"),
    P("C08", "Flow covariances and their time integrals follow the definition",
      "For every sequence of transition matrices, initial distribution and time grid, the forward "
      "flow covariance at each grid point is the covariance of the walk between the start and that "
      "time, and the integral covariance is its average over the elapsed time, each interval "
      "weighing by its duration; dense and sparse inputs and both ways of giving the matrices "
      "agree. Covariances are symmetric and their rows sum to zero.",
      ["inputs", "configurations"],
      "all sequences, distributions, grids (repeated, partial, offset) and storage formats",
      "tests use one short sequence on the full grid",
      [NC], [("integral", NC + ":FlowIntegralClustering._compute_integral"),
             ("sparse covariance", SSM + ":sparse_autocov_mat")],
      "runtime monitor against a dense quadrature",
      "every covariance and integral of each case is recomputed densely"),
    P("C09", "Louvain clustering returns a valid, never worse, reproducible partition",
      "For every covariance and starting partition the result is a partition of all nodes whose "
      "reported stability equals the stability computed from the covariance and is never lower "
      "than that of the start. The same seed gives the same result, no merge of two clusters of "
      "the result gains stability, running again never loses stability, and inputs keep their "
      "values.",
      ["inputs", "histories"],
      "all covariances, starting partitions, seeds and repeated runs, dense or sparse",
      "tests run a few matrices from singletons and compare to stored results",
      [NC, FF, SSM], [("node moves", NC + ":_louvain_move_nodes"),
                      ("aggregation", NC + ":_aggregate_clusters"),
                      ("meta loop", NC + ":find_louvain_clustering")],
      "online monitor of every node move plus stability oracle",
      "partition invariants after each move; result judged by a dense stability oracle"),
    P("C10", "Static clustering optimises the Markov stability of the given graph",
      "For every graph and Markov time, static clustering works with the transition matrix of the "
      "continuous-time walk (or its linearisation, or the discrete-time walk for integer times) "
      "and the stationary distribution of that graph, directed or not, dense or sparse alike. "
      "Isolated nodes stay where they are, and a graph without any edge is rejected.",
      ["inputs", "configurations"],
      "all weighted graphs with isolated nodes, all directed strongly connected graphs including "
      "periodic ones, all times and walk variants",
      "tests run one undirected graph and look at the clusters only",
      [NC, TN], [("transition matrix and stationary solution", NC + ":static_clustering")],
      "runtime monitor against dense linear algebra",
      "transition matrix, stationary solution and stabilities recomputed for each graph"),
    P("C11", "A partition always assigns each node to exactly one cluster",
      "After any history of moves and removals of empty clusters, each node is in exactly one "
      "cluster, cluster sets and node assignment agree, and counts, indicator matrices and "
      "iteration describe that same assignment. Invalid initial partitions are detected by the "
      "integrity check.",
      ["histories", "inputs"],
      "all initial partitions (sets, dictionary, default) and all histories of operations",
      "tests construct a few partitions and move single nodes",
      [NC], [("node move", NC + ":Partition.move_node"),
             ("empty clusters", NC + ":Partition.remove_empty_clusters"),
             ("integrity check", NC + ":Partition.check_integrity")],
      "model-based history monitor", "random histories against a plain dictionary model"),
    P("C12", "Partition comparison measures obey their definition",
      "For all pairs of partitions the normalised variation of information, normalised mutual "
      "information and Jaccard distances equal their information-theoretic or set definition, "
      "whichever way the partitions are given, are symmetric where defined so, stay in their range "
      "and detect equality. Sorting clusters after a model only reorders them.",
      ["inputs"],
      "all pairs of partitions of all sizes, in every accepted representation and cluster order",
      "tests compare a few pairs",
      [NC, FF], [("measures", NC + ":norm_var_information, norm_mutual_information, "
                  "jaccard_distance"), ("native kernel", FF + ":cython_nmi / nvi kernels"),
                 ("sorting", NC + ":sort_clusters")],
      "runtime monitor against contingency-table definitions",
      "each measure recomputed from a contingency table, plus metric laws"),
    P("C13", "Parallel computations give what the serial ones give",
      "Clustering repetitions, partition comparisons and matrix exponentials distributed over any "
      "number of processes give, item by item, the results of the serial computation, none lost, "
      "repeated or mixed up. Every reported stability and seed belongs to the partition it is "
      "reported with.",
      ["schedules", "inputs", "configurations"],
      "all process counts, work sizes and scheduling orders, dense and sparse, symmetric or not",
      "tests run one schedule and check shapes",
      [PC, PE], [("process pool and shared arrays", PC + ":compute_parallel_clustering"),
                 ("parallel comparison", PC + ":compute_parallel_nvi"),
                 ("parallel exponential", PE + ":compute_subspace_expm_parallel")],
      "offline conformance of recorded parallel results against serial re-execution",
      "per-item comparison under injected delays in the workers"),
    P("C14", "The analysis object never runs a step whose inputs are missing or stale",
      "In any sequence of settings and computations, the analysis object runs a step only when all "
      "that it needs is set and was computed for the current settings; otherwise it says so and "
      "changes nothing. Changing a setting sends the analysis back to the step that depends on it, "
      "so no later step can be run before the steps in between were repeated.",
      ["histories"],
      "all sequences of property assignments, resets and step calls, with valid and unset values",
      "tests walk the straight path and a few single deviations",
      [FS, ST], [("state decorator", ST + ":StateMeta / register"),
                 ("states", FS + ":States, FlowStability")],
      "trace conformance with an explicit state model",
      "random call histories; after each call the reported state and effects must match the model"),
    P("C15", "Analysis results belong to the current settings",
      "Whatever the history of an analysis, the results of a completed pipeline equal those of a "
      "fresh computation with its current network, window, time scales and direction: same "
      "Laplacians, interval matrices, covariances and stabilities, forward and backward.",
      ["histories", "inputs"],
      "all networks, settings and histories of changed settings before the final run",
      "tests run the pipeline once per object",
      [FS, TN, NC], [("pipeline steps", FS + ":compute_laplacian_matrices ... "
                      "find_louvain_clustering")],
      "differential monitor: long-lived object against dense recomputation",
      "after each completed pipeline all results are recomputed from the events"),
    P("C16", "Simulated contact sequences obey the declared dynamics",
      "Every simulated event list is a possible trace of the declared process: events start within "
      "the simulated time range, are listed in the order in which they end, and link two different "
      "individuals, no one starts a second "
      "contact with the same target while one is running, and targets respect the declared group rule at "
      "that time. The same random seed gives the same events, whatever order individuals are "
      "listed in.",
      ["inputs", "configurations", "histories"],
      "all populations, rates, group structures, time ranges and seeds",
      "tests check that a simulation runs and counts events",
      [SY], [("event loop", SY + ":SynthTempNetwork.run"),
             ("interaction choice", SY + ":SynthTempNetwork")],
      "online trace-specification checker of simulated events",
      "each event checked against the trace specification, including per-group rules"),
    P("C17", "Networks hold exactly the given interactions, however they are given",
      "A network built from lists, a table or a CSV file holds the same interactions with the same "
      "labels, under consecutive node numbers that map back to the given labels; "
      "the caller's data stays as it was. Merging overlapping events keeps the activity of each "
      "pair at each time and leaves no overlap, and the static graph weighs each pair by its "
      "contact time within the requested period.",
      ["inputs", "configurations"],
      "all event data, label types, input forms, column orders and options",
      "tests build one network per input form",
      [TN], [("construction", TN + ":ContTempNetwork.__init__"),
             ("merging", TN + ":_merge_overlapping_events"),
             ("static graph", TN + ":compute_static_adjacency_matrix")],
      "conservation monitor between given and stored events",
      "interactions compared as multisets of labelled events across input forms"),
    P("C18", "Networks of instantaneous events walk one step per event time",
      "For networks of instantaneous events, each distinct event time has the graph of exactly the "
      "events of that time, followed until the next event time for windowing, and the walk of each "
      "time lasts one unit whatever the gaps between events.",
      ["inputs", "configurations"],
      "all instantaneous event lists, input forms, windows and rates",
      "tests build one such network",
      [TN], [("instantaneous network", TN + ":ContTempInstNetwork")],
      "runtime monitor against a dense graph model",
      "Laplacians, interval matrices and products recomputed from raw events"),
    P("C19", "Native code stays within its memory and gives it back",
      "No well-formed input or operation sequence makes the native extensions read or write outside their "
      "buffers, use uninitialised or freed memory, overflow or shift invalidly, and repeated "
      "operations do not grow memory without bound.",
      ["inputs", "programs"],
      "all operation sequences on matrices of all shapes, supports and index types, including "
      "empty rows and unsorted indices",
      "plain tests cannot see silent out-of-bounds accesses or leaks",
      [FF, SS, ACC], [("buffer allocation and indexing", SS), ("accumulator", ACC),
                      ("stability kernels", FF)],
      "AddressSanitizer and UndefinedBehaviorSanitizer build of the extensions, RSS growth monitor",
      "instrumented extensions run the operation programs of the matrix and clustering properties"),
    P("C20", "The command line pipeline computes what the library computes",
      "Running the three command line steps on a network gives files whose matrices, integrals and "
      "partitions are those the library computes for the same settings, for any number of "
      "processes. A run that is repeated or resumed after an interruption completes to the same "
      "files, and finished ones keep their content.",
      ["inputs", "configurations", "crash_points"],
      "all networks and option combinations, interruption at any file boundary",
      "the scripts have no tests",
      [SC + "run_laplacians_transmats.py", SC + "run_cov_integrals.py",
       SC + "run_clusterings.py"], [("argument handling and file layout", SC)],
      "end-to-end runs in scratch directories, offline checker over the written files",
      "files compared with library results; interrupted runs resumed and compared"),
    P("C21", "Matrix helpers compute what they state, in place where stated",
      "Row normalisation, thresholding, removal and reinsertion of empty rows and columns, sparse "
      "outer products, scaled products and the spectral gap give the mathematically defined "
      "result for all matrices, storage types and index types.",
      ["inputs", "configurations"],
      "all matrices, storage and index types, thresholds and options",
      "tests use one matrix each",
      [TN, SSM, FF], [("thresholding", TN + ":set_to_zeroes, set_to_ones"),
                      ("normalisation", TN + ":csc_row_normalize / csr_row_normalize"),
                      ("spectral gap", TN + ":find_spectral_gap")],
      "runtime monitor against dense definitions", "dense re-computation of each helper"),
    P("C22", "State tracking of user classes enforces the declared order",
      "For every class that declares states, properties and methods for tracking, a method runs "
      "only when the current state and the set properties allow it, otherwise it warns, returns "
      "nothing and has no effect; the reported next steps and missing properties are exactly those "
      "that the declaration implies.",
      ["histories", "programs"],
      "all declarations of states, properties and methods, and all call histories",
      "tests use one small class",
      [ST], [("registration and guard", ST + ":StateMeta, OrderedEnum")],
      "trace conformance with an explicit state model over generated classes",
      "random classes and histories"),
    P("C23", "Computations never modify what the caller handed in",
      "No construction, computation, comparison or save modifies matrices, arrays, lists, tables "
      "or networks passed in by the caller, except for operations documented to work in place, and "
      "results already handed out keep their value while further computations run.",
      ["inputs", "histories"],
      "all public entry points, argument types and later calls",
      "tests look at results, not at arguments afterwards",
      [TN, NC, SSM, PC], [("copies on entry", TN + ", " + NC)],
      "snapshot monitor around every public call",
      "deep snapshots of arguments and earlier results around each call"),
    P("C24", "Results do not depend on names, units or order of the events",
      "Renaming nodes permutes all results, shifting times leaves them, scaling times with the "
      "inverse rate leaves them, and reordering the given events leaves them; a network played "
      "backwards with forward direction equals the original with backward direction.",
      ["inputs"],
      "all networks, permutations, shifts, scales and orders",
      "tests use single inputs",
      [TN, NC, FS], [("time grid and relabelling", TN)],
      "metamorphic monitor", "each case run under transformed inputs and compared"),
    P("C25", "Optional accelerators do not change results",
      "With Cython, sparse_dot_mkl or both missing, the package imports and every function that "
      "is available then (sparse stochastic matrices, autocovariances, normalisation, "
      "partitions and their comparison, integrals, products) gives the same results as with "
      "them; a replacement that does not exist says so with NotImplementedError.",
      ["inputs", "configurations"],
      "all inputs of the replaced functions, for all combinations of missing accelerators",
      "tests compare a few replacements on single matrices and never run the package without "
      "the accelerators",
      [S + "_cython_subst.py", SSM, NC], [("replacements", S + "_cython_subst.py")],
      "dense-oracle monitors in interpreters without the accelerators",
      "workloads and monitors of the other properties in fresh interpreters in which the "
      "modules cannot be found"),
    P("C26", "Reporting never changes what is computed",
      "For every computation and input, log level, verbosity and progress printing change only "
      "what is printed: results, the objects involved and the random numbers drawn afterwards "
      "are those of a silent run with the same seed. Asking an object for its text form, its "
      "state or help changes nothing, and a log level that does not exist is rejected and "
      "leaves the current one.",
      ["inputs", "options", "histories"],
      "all computations, inputs, log levels and verbosity options",
      "tests run at one log level and almost always silent, and compare nothing across levels",
      [NC, S + "parallel_clustering.py", S + "synth_temp_network.py", S + "__init__.py",
       S + "flow_stability.py"],
      [("set_log_level", S + "__init__.py"), ("timing", SSM), ("BaseClustering", NC)],
      "differential monitor of silent and reporting runs",
      "each drawn computation runs twice on the same input and seed, once silent and once with "
      "drawn reporting options; results and random states are compared"),
]


def built():
    return [p for p in PROPS
            if os.path.exists(os.path.join(HERE, "vf", "props", p["id"].lower() + ".py"))]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in built():
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash /opt/vp/build.sh",
        "hooks": {"guard": "FLOWSTAB_VERIF (unused: no hooks in /repo)",
                  "enable": "nothing to enable; the monitors wrap the public API at run time",
                  "source_commits": []},
        "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                    "thorough_cmd": f"bash check.sh {p['id']} thorough",
                    "evidence_file": f"evidence/{p['id']}.json",
                    "technique": p["_technique"], "level": "exploration",
                    "level_note": p["_note"]} for p in built()],
        "not_applicable": [],
        "notes": "vf/spec.py generates this file and properties.jsonl; see DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
