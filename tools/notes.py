HOOKS = ["fe22678"]
_E = "explicit-state exploration of the real update code; every state compared with an independent oracle"
NOTES = {
 "C01": (_E + " (pairwise detailed balance, exact acceptance thresholds)", "Detailed balance is decided for every ordered pair of explored configurations, with selection and acceptance probabilities recovered from the running code; bounded lattice, order, momenta and times. Trusts the oracle of the diagram weight in harness/world.h and state.h."),
 "C02": (_E, "All structural invariants evaluated in every reachable state within the bounds (one configuration closed, the others cut at a stated number of states)."),
 "C03": (_E, "Every stored weight, the total, sign and phase recomputed from the tables in every reachable state within the bounds."),
 "C04": (_E + " (memory digest before and after)", "Every draw sequence of every update in every explored state; a rejected or inapplicable attempt must leave the digest of the diagram unchanged."),
 "C05": (_E + " against an independent enumeration of allowed diagrams", "Closed state spaces: the set reached equals the set enumerated from the Feynman rules, and every state leads back to the initial one."),
 "C06": (_E + " (every table cell compared after each measurement)", "One measurement in every explored state, all accumulators compared with the rule that says which cell gets what."),
 "C23": ("exhaustive partition of the selector draw of the real step function, by behaviour on distinguishing states", "The full range of the selector word is partitioned by bisection between grid points; the share of every update is exact to 2^-32."),

 "C07": ("exhaustive enumeration of all sites, pairs and offsets of every small lattice, on the real code", "All lattice sizes within the bound, two- and three-dimensional builds, every pair of sites and translation."),
 "C08": ("exhaustive enumeration of all index arguments against a reference numbering", "Every spin, site and sublattice combination; every pair of times on grids of bin edges, centres and neighbouring floating point numbers."),
 "C09": ("exhaustive enumeration of all line configurations against a reference reading of the tables", "Every combination of ends, spins, times on a grid and flags of propagators and interactions."),
 "C10": ("explicit-state exploration of all operation histories of the real pool", "State space closed at small capacity (build with smaller maximum order), bounded histories at the shipped capacity; every state compared with a set."),
 "C11": ("exhaustive enumeration of all momentum pairs and explicit-state exploration of the occupancy tables", "All pairs of the shipped range; all table histories of small ranges reach a closed state space."),
 "C12": ("exhaustive enumeration of all 2^32 generator words and of all save points of operation histories", "Conversions are decided for every word; save and restore for every position in a history within the bound. The generator algorithm is the standard library's."),
 "C13": ("explicit-state exploration of all operation sequences of the real estimators against an exact reference", "All sequences up to the stated depth; capacity-crossing histories run in full."),
 "C14": ("explicit-state exploration of all operation sequences of the real accumulators against exact sums", "All sequences of thirteen operations up to the stated depth for the four accumulators, every cell compared after every sequence."),
 "C15": ("exhaustive enumeration of visit-count combinations on the real reweighting", "Every combination of visit counts per sector from a list, with report and adjustment sequences, against the documented ratios."),
 "C16": ("systematic exploration of every arrival point of signals in every operation history of the real handler", "Every history of protected-section operations up to a depth, with one to three signals raised at every intercepted library call; forked per history."),
 "C17": ("explicit-state exploration: every explored diagram is saved and restored, and every step of a real chain is a save point with identical continuation", "Diagram round trip in every explored state (into two different previous contents); whole-simulation round trips at every step of chains with fixed seeds, generation chains and continuations."),
 "C18": ("systematic exploration of every crash point, torn write and failing operation of save histories of the real saving code", "Every file operation of each of up to two successive saves is a crash, torn-write or failure point; the next reader's view is checked. h5py is a stand-in."),
 "C19": ("systematic exploration of all histories of publications, corruptions, steps, restarts and polls of the real worker", "Every sequence of twenty-two actions up to a depth, each followed by a real poll of real message, weight and basis files in a forked process; every adoption is compared with the published tables and with a restarted worker."),
 "C20": ("exhaustive enumeration of operator sequences over a value set on the real operators", "All operand pairs (also aliased) of every overload and all operator sequences up to a depth."),
 "C21": ("systematic exploration of all clock advances, message arrivals and stop-signal points on the real worker program against the specified timed loop", "The real main() in forked processes: every combination of timer intervals, clock advances and message rounds within the bounds, files compared after every round with those of the specified loop; signals at every intercepted library call."),
 "C22": ("exhaustive enumeration of all arguments of the vertex-function tables against a reference", "Every spin, site and time combination on small lattices for four families of symmetry maps."),
 "C24": ("explicit-state exploration of all start/restart/check/advance sequences under a controlled clock", "All sequences up to the stated depth with two timers."),
 "C25": ("exhaustive enumeration of basis tensors over all transform paths, and explicit-state exploration of all merge/roll-back/transform sequences", "Transforms are linear, so all basis tensors of small shapes decide them; every sequence of merges, roll-backs, transforms, copies and loads up to a depth on the real class against defining sums."),
 "C26": ("exhaustive enumeration of file conditions, listing orders and vanishing files for small sets of workers on the real collector", "Every assignment of conditions (unreadable, torn, incomplete, foreign, vanishing) to up to five files in every listing order; files of real workers included."),
 "C27": ("stateless exploration of all completion orders and all arrival points of a stop request on the real job manager", "The real manager and job classes run over fake processes; which jobs end at each look, and a request to stop at every executed line and call, are enumerated completely for small job lists; all sets of left-over files; a few runs over real processes."),
 "C28": ("stateless exploration of all outcome sequences, kills, failing file operations, signals and restarts of the real solver program, by forking at every choice", "The real solver runs as the main program on a small lattice; every outcome of every version up to a depth, every disk change as a kill, failure or signal point and every executed line as a signal point are explored by forking; every saved file is compared with a specification of the version loop. The Dyson equations themselves are taken from the repository here (C31 decides them)."),
 "C29": ("explicit-state exploration: the stationary sum of the real measurement over every reachable diagram on all time bins, compared with the solver's own expressions and with the Feynman rules", "Tables are written by the real solver code, read, sampled and measured by the real Monte Carlo code, and the statistics read back by the real solver code; sums are complete for the stated lattice, bins and order, so agreement is to rounding (single precision where the file is)."),
 "C30": ("exhaustive enumeration of all lattices and sizes within bounds, every unit coupling and field on the real model builder, and explicit-state exploration of the field annealing", "Every lattice, coupling and field component that the solver names, on every size of torus within the bounds, against an independent construction from the crystal's translations and exact diagonalisation. One deviation (spin-orbit hopping) is recorded as a known finding."),
 "C31": ("exhaustive enumeration of all tuples of basis functions over the multilinear expressions, and explicit-state exploration of all representation states of shared objects", "All tuples of basis functions decide the multilinear expressions on each shape; the Dyson equations are checked by their residual in real space and time; the state space of representations of eight shared tables under eighteen operations is closed."),
 "C32": ("exhaustive enumeration of values, types, array shapes and layouts over the real conversions, and explicit-state exploration of all dictionary histories against a model", "Every value of a set (all integers near powers of two, special reals, texts, nested containers) is read as every type and every value of every type written and read back, with reference counts, pending errors and lost objects watched; all sequences of dictionary operations up to a depth against a map model, also without merging equal contents; all pairs of failing and working calls."),
 "C33": ("exhaustive enumeration of the values of all fields of an input file, singly and in pairs, and of all pairs of dimensions of a worker and its files, on the real worker", "Every field takes every value of its set (usual, extreme, of another type, out of range, left out) alone in four layouts of the file and together with every value of every other field, orders with all lists of weights; each file is read by the real job and parameter classes and compared or has to be refused, saved and read again. Workers of 48 dimensions start with tables, and continue with statistics, of each of the 48."),
 "C34": ("exhaustive enumeration of kinds of data per order, thresholds and orders used before, on the real collector", "Five kinds of data (accurate, noisy, accurate among noisy, slightly noisy, empty) in every assignment to up to three orders (four in the thorough command), every threshold between two errors and every pair of orders used before, through real files; the error estimate is recomputed by the check, also the spline fit."),
 "C35": ("exhaustive fault injection: every file operation of every life of the real worker is made to kill it, be torn or fail, and every resulting disk state is restarted and explored again", "The real EnvMonteCarlo starts, continues, runs and saves in processes of its own with a library preloaded that kills or fails each operation on its files in turn; what a restart restores is compared with the states recorded in memory when the saves began."),
}
