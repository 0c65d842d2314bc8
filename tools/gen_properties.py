#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,"anchors":a})
HK="FEYNMAN_VERIF: random draws routed to the harness, momentum range overridable"
MC="src/module/markov/markov.cpp"; G3="src/module/markov/gamma3_updates.cpp"

p("C01","Every Monte Carlo update obeys detailed balance",
 "For any two diagram configurations the probability flow of one Monte Carlo step from the first to the second equals the flow back, when each configuration is weighted by the modulus of its diagram weight times the documented reweighting factors (order, worm space, polarization, vertex functions). Hence the sampled distribution is the diagrammatic expansion itself, for every reweighting setting, lattice, temperature and update mix.",
 ["programs","histories","configurations"],"all pairs of configurations reachable under the update set, all outcomes of every random draw, with and without the three-point-vertex updates",
 "The stable tests never run an update; the project's own Markov test only prints acceptance counts of one random run and asserts nothing. A wrong proposal ratio shifts averages by a few percent and cannot be seen on sampled runs.",
 [MC,G3,"src/module/markov/markov.h"],[("Metropolis-Hastings acceptance ratio of each update","Markov::CreateWorm ... ChangeRLoop, JumpTo*/JumpFrom*"),("uniform update choice","Markov::BuildNew, Markov::Hop")],
 ["Markov::Hop and the public update methods: state before/after, random draws consumed"],HK)
p("C02","Diagrams stay structurally valid under every update sequence",
 "Starting from the initial diagram, after any sequence of Monte Carlo steps the diagram is a well-formed one: each vertex joins one incoming and one outgoing propagator and one interaction line consistently in both directions, object counts match the order, momentum and spin are conserved at each vertex up to the worm's current, exactly one line is the measured line and at most one carries a vertex function. All propagator momenta are distinct and interaction momenta distinct up to sign and nonzero, and the occupancy tables agree with the lines present.",
 ["histories","programs"],"all sequences of updates and random draws within the bounds, from the initial diagram, including creation, motion and removal of the worm and order changes",
 "The tests exercise only add/remove on the container; the consistency checker aborts at run time only on the one sampled path and does not look at occupancy tables, spin conservation or names.",
 [MC,G3,"src/module/diagram/diagram.cpp","src/module/diagram/diagram_check.cpp","src/module/diagram/component_bundle.cpp"],[("pointer rewiring in each update","Markov::AddInteraction, DeleteInteraction, Reconnect, MoveWormOnG"),("occupancy tables","Diagram::AddGHash/RemoveGHash/ReplaceGHash and the W counterparts")],
 ["Diagram public lines, vertices, worm after every update"],HK)
p("C03","Stored weight, phase and fermion sign always equal the diagram's true value",
 "After any sequence of Monte Carlo steps the weight stored for each line equals the tabulated function at that line's spins, sites, times and flags; the stored total weight equals (-1)^order times (-1)^(number of fermion loops) times the product over lines, up to rounding; and the stored phase is that weight divided by its modulus (at order zero: the normalization weight). Re-deriving all weights from scratch changes nothing.",
 ["histories","programs"],"all update sequences and draws within the bounds, all spin/site/time/flag combinations they reach",
 "No stable test computes a weight; incremental bookkeeping errors (a missing sign on one branch) appear only on particular update sequences.",
 [MC,G3,"src/module/diagram/diagram.cpp","src/module/weight/component_MC.cpp"],[("incremental weight ratio and sign in each update","Markov update methods"),("full recomputation","Diagram::FixDiagram")],
 ["Diagram.Weight, Phase, SignFermiLoop, line weights"],HK)
p("C04","A rejected or impossible update leaves the configuration untouched",
 "Whenever a proposed Monte Carlo update is rejected by its random draw or is not applicable to the current configuration, the diagram (lines, vertices, momenta, occupancy, worm, measuring line, weights, phase, order, active vertex-function arguments) is exactly what it was before.",
 ["histories","programs"],"every reachable configuration within bounds, every update, every draw outcome leading to rejection or early exit",
 "Rejections are the majority of steps in production but no test inspects the state after one.",
 [MC,G3],[("all mutation happens inside the acceptance branch","each Markov update method")],
 ["complete diagram state before/after an update"],HK)
p("C05","Every allowed diagram can be reached, and nothing else",
 "From the initial diagram the updates reach every topology, spin, site, time and measuring-line assignment that is an allowed (connected, irreducible) diagram up to the maximum order, never exceed the maximum order, never leave the allowed set, and can always return to where they came from.",
 ["histories","programs"],"the complete reachable set of configurations within the bounds, compared with an independent enumeration of allowed diagrams",
 "Ergodicity is a property of the whole transition graph; a sampled run cannot show that a class of diagrams is never visited.",
 [MC,G3],[("worm creation/motion/reconnection and order changing updates","Markov::*")],
 ["set of reachable diagrams"],HK)
p("C06","Each measurement is credited to the right quantity, bin, sign and normalization",
 "For every configuration, one measurement adds exactly the configuration's phase (with the convention sign of the quantity and the inverse of the applied reweighting) to exactly one bin: the self energy, the polarization or a vertex function, at the order, spins, sites and time difference of the measured line; order-zero configurations add only to the normalization of the sector they sit in, and worm configurations only to the visit counters.",
 ["histories","inputs","configurations"],"every reachable configuration within bounds and several reweighting settings",
 "No stable test touches the measurement code; a wrong bin, orientation or factor changes results silently.",
 ["src/module/markov/markov_monitor.cpp","src/module/weight/component_MC.cpp","src/module/weight/weight_estimator.cpp","src/module/weight/gamma3.cpp"],[("sector dispatch","MarkovMonitor::Measure"),("bin lookup","SigmaClass::Measure, PolarClass::Measure, GammaGClass::Measure, GammaWClass::Measure")],
 ["accumulators and visit counters before/after one measurement"],HK)
p("C07","Lattice index, vector and displacement maps are exact and periodic",
 "On every lattice, coordinate-to-index is a bijection onto 0..volume-1 with the documented row-major order and index-to-coordinate its inverse; the displacement index between two sites depends only on the coordinate difference modulo the lattice size, is zero exactly for equal coordinates and is invariant under translating both sites; vectors add, scale, compare and are written and read component by component.",
 ["inputs","configurations"],"all lattice sizes within bounds including non-square ones, all sites and all ordered pairs of sites",
 "The two lattice tests check a single lattice size and a few vectors.",
 ["src/lattice/lattice.cpp","src/utility/vector.h"],[("row-major index","Lattice::Vec2Index/Index2Vec"),("periodic wrap","Lattice::Shift, Lattice::CoordiIndex")],["Lattice public methods"])
p("C08","Weight-table indexing is injective, in range and time-consistent",
 "Every combination of spins, sublattices, displacement and time difference maps to its own cell of a weight table, in the documented axis order and inside the table; times in [0,beta) are assigned to equal-width bins of the difference shifted by beta when negative, and the sign factor is -1 for antiperiodic quantities exactly when the time difference is not positive.",
 ["inputs","configurations"],"all table shapes within bounds, all spin/site combinations, all pairs of times on a grid containing bin centres and edges",
 "Existing tests for weights are not in the stable suite and sample single entries.",
 ["src/module/weight/index_map.cpp","src/module/weight/index_map.h"],[("strides","IndexMap::_UpdateCache, IndexMapSPIN2/4::GetIndex"),("time binning","IndexMap::TauIndex, GetTauSymmetryFactor")],["IndexMapSPIN2/IndexMapSPIN4 public methods"])
p("C09","A line's weight does not depend on the end it is read from",
 "The propagator and interaction weight functions return the table entry for the line's ingoing and outgoing ends, spins and times; reading the same line from its other end with the direction flag gives the identical value; measured lines have unit weight, instantaneous lines use the instantaneous table, worm lines are evaluated as spin-up, and vertex-function lines use the vertex-function table.",
 ["inputs","configurations"],"all spins, sites, time-bin pairs and flag combinations on small lattices",
 "No stable test evaluates weights.",
 ["src/module/weight/component_MC.cpp","src/module/weight/component.h"],[("two overloads per weight class","GClass::Weight, WClass::Weight")],["GClass::Weight, WClass::Weight"])
p("C10","The object pool behaves as a set under every add/remove history",
 "After any sequence of additions and removals the pool's live objects are exactly those added and not removed, at distinct stable addresses; each live object's name is its position and positions 0..count-1 are all occupied; membership test, random pick and element access only ever see live objects; filling beyond capacity and removing absent objects are refused rather than corrupting memory.",
 ["histories","inputs"],"all operation sequences up to a depth and all reachable pool permutations, up to and past capacity",
 "Eleven tests follow a handful of fixed sequences with a few objects and never reach capacity.",
 ["src/module/diagram/component_bundle.cpp","src/module/diagram/component_bundle.h"],[("name/slot swap on removal","Bundle::Remove"),("capacity guard","Bundle::Add")],["Bundle public methods"])
p("C11","Loop momenta form a cyclic group with a faithful occupancy table",
 "Momentum addition, subtraction and negation wrap into the symmetric range and satisfy the group laws for all values; the table positions used for propagators are distinct for distinct momenta and those for interactions are shared exactly by opposite momenta; adding, removing and replacing entries keeps the table equal to the set of momenta in use, zero momentum always counting as occupied for interactions.",
 ["inputs","histories"],"all pairs of momenta for several range sizes, and all sequences of table operations up to a depth",
 "No test covers momenta; errors appear only at the wrap-around.",
 ["src/utility/momentum.cpp","src/module/diagram/diagram.cpp"],[("wrap","Shift in momentum.cpp"),("occupancy","Diagram::GHashCheck/WHashCheck/Replace*")],["Momentum operators, Diagram hash operations"],HK)
p("C12","Random numbers are in range, unbiased and resume exactly from saved state",
 "Uniform draws lie in [0,1) and are a strictly monotone image of the generator word, integer draws cover exactly the closed requested interval with counts differing by at most one over all generator words; saving the generator state at any point and restoring it reproduces the identical continuation.",
 ["inputs","histories"],"all 2^32 generator words for the conversions, all small integer ranges, all save points of short histories",
 "The five generator tests check seeds and a few draws of one stream.",
 ["src/utility/rng.h","src/utility/rng.cpp"],[("word to float","RANDBL_32, RandomFactory::urn"),("word to integer","RandomFactory::irn"),("state text","operator<<, Reset(state)")],["RandomFactory::urn/irn, ToString, Reset"],HK)
p("C13","Statistics estimators report the mean of everything measured",
 "For any sequence of measure, evaluate, squeeze, clear, save and restore operations the reported value equals the sum of measured values divided by one plus the number of measurements (the weight sum starts at one; squeezes rescale both consistently), the norm equals that weight sum, and saving then restoring reproduces value, norm and error; named lookup returns the estimator registered under that name.",
 ["histories","inputs"],"all operation sequences up to a depth over a small value alphabet, real and complex",
 "The estimator test is not in the stable suite and uses one fixed sequence.",
 ["src/estimator/estimator.cpp","src/estimator/estimator.h"],[("accumulation","Estimator::Measure/AddStatistics/SqueezeStatistics"),("named set","EstimatorBundle::AddEstimator/operator[]")],["Estimator and EstimatorBundle public methods"])
p("C14","Weight accumulators normalise consistently through their whole life cycle",
 "For self energy, polarization and vertex-function accumulators, any sequence of measure, normalise, squeeze, clear, save and restore leaves stored data such that accumulated weight divided by accumulated norm times the normalization constant is the reweighted average of what was measured; squeezing by a positive factor and save/restore (also into a larger maximum order) never change that ratio.",
 ["histories","inputs"],"all operation sequences up to a depth over small tables",
 "No stable test reaches these classes.",
 ["src/module/weight/weight_estimator.cpp","src/module/weight/gamma3.cpp","src/module/weight/component.cpp"],[("accumulate/squeeze","WeightEstimator::Measure/MeasureNorm/SqueezeStatistics"),("IO","WeightEstimator::FromDict/ToDict")],["ToDict output"])
p("C15","Automatic reweighting moves every sector to its target share",
 "Whenever enough statistics exist, adjusting the reweighting multiplies each factor by exactly the ratio of target to observed visits (order by its time ratio relative to order zero, worm to physical, self energy to polarization, vertex functions to their parents), leaves order zero at one, and never yields a zero, negative or non-finite factor; otherwise, and when merely reporting, no factor changes.",
 ["inputs","histories","configurations"],"all combinations of empty/small/large visit counts per sector over small maximum orders, with and without vertex functions",
 "No test calls the adjustment; degenerate counts (an order never visited) occur only in unlucky runs.",
 ["src/module/markov/markov_monitor.cpp"],[("ratio update","MarkovMonitor::AdjustOrderReWeight"),("report","MarkovMonitor::PrintOrderReWeight")],["ParaMC reweighting factors before/after"])
p("C16","No shutdown signal is lost or acted on inside a protected section",
 "A termination signal delivered while a protected section (checkpoint writing) is active is held until the section ends and then acted on exactly once; a signal outside a section is acted on at once; sections can be entered and left repeatedly without losing or duplicating a signal.",
 ["schedules","histories"],"all placements of up to three handled signals over all enter/leave sequences up to a depth",
 "No test sends a signal; the window between operations is hit by chance only.",
 ["src/utility/abort.cpp","src/utility/abort.h"],[("deferred handler","InterruptHandler::Delay/Resume/_SignalHandler")],["process exit status and ordering of protected work"])
p("C17","A saved simulation restores to the same simulation",
 "Writing a simulation's configuration, statistics, weights and parameters to its dictionary form and reading them back, at any point of a run outside vertex-function states, gives an equivalent simulation: same diagram including worm, signs, weights and occupancy, same statistics and reweighting, same random continuation.",
 ["crash_points","histories"],"every configuration reached within bounds taken as the save point",
 "IO is excluded from the buildable tests; no test restores a mid-run state.",
 ["src/module/diagram/diagram_IO.cpp","src/module/diagram/diagram.cpp","src/environment/envMonteCarlo.cpp","src/module/parameter/parameter.cpp","src/module/weight/weight.cpp"],[("dictionary form","Diagram::ToDict/FromDict, ParaMC::ToDict/FromDict, MarkovMonitor::ToDict/FromDict")],["ToDict/FromDict"],HK)
p("C18","A crash while saving leaves the old or the new checkpoint, never a broken one",
 "If the process dies or a file operation fails at any point while a large-state checkpoint is being written, the checkpoint file afterwards holds either the complete previous or the complete new contents, and a successful save followed by a load returns exactly what was saved.",
 ["crash_points","fault_sequences"],"every file-system operation of a save as crash or failure point, with and without a previous checkpoint, over save/load histories",
 "No test saves state, let alone kills a save midway.",
 ["IO.py","hickle.py"],[("write aside then rename","IO.SaveBigDict")],["directory contents after a crash"])
p("C19","Workers adopt new run parameters exactly once and in version order",
 "A worker that polls the control message adopts it if and only if its version is newer than its own, then uses the message's beta and version together with everything derived from them; stale, equal, missing or unreadable messages leave parameters, weights and statistics unchanged.",
 ["histories","fault_sequences"],"all sequences of published versions, deletions and corruptions interleaved with polls up to a depth",
 "The message exchange is between two programs and has no test.",
 ["src/module/parameter/message.cpp","src/module/parameter/parameter.cpp","src/environment/envMonteCarlo.cpp"],[("version test","EnvMonteCarlo::ListenToMessage"),("adoption","Parameter::UpdateWithMessage")],["parameters after each poll"])
p("C20","Complex arithmetic obeys the field laws in every operand mix",
 "Every arithmetic operator between complex and real operands in either order, every compound assignment, and modulus, phase, conjugate, exponential, square root and powers agree with standard complex arithmetic for all finite operands whose squared modulus is representable, including an operand that is the other one or a part of it.",
 ["inputs"],"all pairs over a value set containing zeros, negatives, pure real and pure imaginary numbers, for every operator and overload",
 "No stable test covers complex numbers; mixed real/complex overloads are separate code.",
 ["src/utility/complex.cpp","src/utility/complex.h"],[("operators","complex.cpp")],["public operators"])
p("C21","A worker keeps its schedule, and stopping it leaves one complete save",
 "A Monte Carlo worker started with -p/--PID (its numbered input file) or -f/--file starts anew or continues from its own files as the job says, reads the solver's message once before it thermalizes for Toss sweeps without measuring, and then measures after every sweep. At the end of each hundred measurements it saves, polls for a message, adjusts its reweighting factors or prints a checked report exactly when the time set for that action has passed since it was last done, each on its own timer. Nothing else changes what it writes, so its files are those of that schedule. Whenever it is asked to stop it ends with the signal's status without a further step, and its parameter and statistics files are both those of one and the same complete save. Command lines and job types it does not know start nothing.",
 ["schedules","faults","histories"],"all advances of the clock, appearances of messages and timer intervals within the bounds, new and continued runs; a stop signal at every library call of a run",
 "The tests never run main(): the loop ends only by a signal, and which timer triggers which action, or a signal in the middle of a save, shows only in runs of hours.",
 ["src/main.cpp","src/job/job.cpp","src/environment/envMonteCarlo.cpp","src/utility/abort.cpp","src/utility/timer.cpp"],[("main loop and its four timers","MonteCarlo(const para::Job&)"),("saving held together against signals","Interrupt.Delay, Env.Save, Interrupt.Resume"),("command line","main")],
 ["the files the worker writes after every hundred measurements, its exit status"],HK)
p("C22","Three-point vertex tables are read and accumulated consistently",
 "Reading a vertex-function table and accumulating into it use the same cell and inverse symmetry transformations for every argument combination, never outside the table; the fermionic one changes sign for each time that wraps; the bosonic one respects the supplied symmetry maps (an entry flagged as mirrored in time stands for the negative conjugate with its two ends exchanged), so that what is accumulated at one argument lands, divided by the size of its symmetry class, in the cell from which it and all its symmetry partners are read, with opposite-spin channels entering with a minus sign and the two exchange channels sharing one table as negative conjugates of each other.",
 ["inputs","configurations"],"all spins, sites, time-bin pairs and several symmetry maps on small lattices",
 "These classes are compiled but reached by no test.",
 ["src/module/weight/gamma3.cpp","src/module/weight/gamma3.h"],[("index and symmetry maps","GammaGClass::Weight/Measure, GammaWClass::Weight/Measure")],["GammaGClass, GammaWClass public methods"])
p("C23","Each step runs exactly one update, chosen with its nominal probability",
 "For every value of the selection draw exactly one update is attempted (or the step is one of the deliberately idle ones), each enabled update is selected with the same probability that its acceptance ratio assumes, vertex-function updates are selected only when enabled, and the step counter advances by exactly the number of steps requested.",
 ["programs","inputs","configurations"],"the whole range of the selection draw resolved to its exact switching points, with and without vertex functions, over step counts",
 "The Hop dispatcher has no stable test and selection imbalance is invisible in a run.",
 [MC],[("cumulative table","Markov::BuildNew"),("dispatch","Markov::Hop")],["effect of one step as a function of the selection draw"],HK)
p("C24","Timers fire once per interval and never early",
 "A timer reports that its interval has elapsed if and only if at least the configured time passed since it was last restarted or last fired, a restart begins a fresh interval, and independent timers do not affect each other. (The clock counts whole seconds.)",
 ["schedules","histories"],"all sequences of start, restart, check and clock advances up to a depth",
 "Timer tests are not in the stable suite and rely on real sleeping.",
 ["src/utility/timer.cpp","src/utility/timer.h"],[("clock difference","timer::check/restart")],["timer public methods under a controlled clock"])
p("C25","Self-consistency weight transforms are exact inverses and keep history",
 "In the solver, transforming any Green's-function-like quantity from imaginary time to frequency and back, and from real space to momentum and back, returns the original, with the antiperiodic/periodic phases of its statistics; the matrix solver used in the Dyson equation inverts every non-singular matrix and gives its determinant; merging and rolling back a quantity follows the documented mixing ratio and restores exactly the previous version after any sequence of merges, transforms and roll-backs.",
 ["histories","inputs"],"all basis states of small shapes and all transform/merge/rollback sequences up to a depth",
 "The solver has no test in the stable suite other than the dense inverse check.",
 ["dyson/weight.py","dyson/solver/lu_fast.pyx"],[("phase and FFT","Weight.FFT"),("history","Weight.Merge/RollBack")],["Weight data before/after"])
p("C26","Merging worker statistics is order-independent and skips bad files",
 "Combining the statistics files of any set of workers gives the sum of the readable ones regardless of order, with unreadable, truncated, incomplete, inconsistent or vanished files excluded as a whole, and fails cleanly when too few are usable.",
 ["fault_sequences","inputs"],"all subsets and orders of a few workers with every combination of good, corrupted, missing files",
 "No test for the collector; corrupt files occur only when a worker is killed.",
 ["dyson/collect.py"],[("merge loop","collect.CollectStatis")],["merged statistics"])
p("C27","The job manager runs every job exactly once within the CPU limit",
 "For any requested numbers of jobs and any order in which they end, the manager starts each requested job instance exactly once with its own process number, seed and input file, never has more CPU-bound jobs running than configured and does not leave a free CPU unused while jobs wait; a restart continues the workers whose statistics exist, each once, up to the requested number; the manager ends when all started jobs have ended; and a request to stop, whenever it comes, ends every running job and lets no further one run on.",
 ["schedules","histories"],"all completion orders of small job lists and limits, a stop request at every point, all sets of files left by earlier runs",
 "No test; the manager needs running processes and the windows for a lost job are one line wide.",
 ["job_manager.py","job_class.py"],[("queue and polling","job_manager.submit_job, check_status, StopTheWorld"),("pid allocation","job_class.get_current_PID, JobMonteCarlo")],["processes started, their input files and their order"])
p("C28","The solver announces only complete versions and forgets failed ones",
 "For every sequence of successful and failing versions, restarts and interruptions, a version that fails (a vanishing denominator, unusable statistics) leaves nothing behind: the next one starts from the Green's function, interaction, self-energy, polarization and vertex function of the last successful one; the saved quantities of a version are those of the Dyson equations and the documented mixing; a version is announced to the workers only after its weights and parameters are completely saved, announced versions only increase, across restarts too; and an interrupt ends the solver without damaging what is saved.",
 ["histories","crash_points","fault_sequences"],"all sequences of version outcomes up to a depth, with a kill, a failing file operation or a signal at every change of the disk, a signal at every executed line, and a restart from what is left",
 "The solver program has no test; failing versions and interruptions in the middle of one do not occur in a sampled run.",
 ["dyson/main.py","dyson/measure.py","dyson/parameter.py","dyson/logger.py","dyson/model.py","dyson/collect.py"],[("version loop","main.Dyson"),("saving","main.Measure"),("announcement","parameter.BroadcastMessage")],["weight, parameter and message files at every moment"])
p("C29","Simulation and solver give every diagram the same value",
 "For every lattice, number of sublattices, temperature, time grid and set of weight tables, the statistics that the Monte Carlo program accumulates, averaged over its stationary distribution and read by the solver, are the diagrams of the Feynman rules on the tables that the solver saved: the same self-energy, polarization and fermionic and bosonic vertex functions, order by order, that the solver's own expressions give for the diagrams it evaluates itself, with the same signs, spin, site and time conventions, also through the compressed and symmetrised form in which the bosonic vertex function travels between the two.",
 ["programs","configurations"],"all diagrams of the order considered on all time bins, for families of lattices, symmetries, time grids and tables",
 "The two programs are in different languages and meet only in files; a sign or transposition that differs between them shifts the converged result without any failure.",
 ["dyson/calculator.py","dyson/gamma3_calc.py","dyson/collect.py","src/module/weight/sigma.cpp","src/module/weight/polar.cpp","src/module/weight/gamma3.cpp","src/module/markov/markov_monitor.cpp"],[("first-order expressions","calculator.SigmaSmoothT_FirstOrder, Polar_FirstOrder; gamma3_calc.AddW_To_GGGammaG, AddG_To_WWGammaW, AddG_To_GGGammaG"),("measurement","MarkovMonitor::Measure and the accumulators"),("compressed form","gamma3_calc.SymmetryMapping, CompressGammaW, UnCompressGammaW; GammaWClass")],["normalised statistics as the solver reads them"],HK)
p("C30","The solver starts from the bare propagator and interaction of its Hamiltonian",
 "For every lattice, size, sublattice structure, coupling, field and temperature the solver accepts, the neighbour shells are those of the crystal, wrapped periodically; the bare interaction carries every coupling on exactly the bonds of its shell in both directions and on the spin components of its operator; the bare propagator is that of the quadratic part of the Hamiltonian (imaginary chemical potential for spins, hopping, chemical potential, Zeeman and annealed fields) at the middle of each time bin; momenta are dual to positions; and the averages that the solver reports are those of their definitions.",
 ["inputs","configurations","histories"],"all lattices on all tori within bounds, unit vectors of couplings and fields, all annealing histories up to a depth",
 "Nothing tests the models; a missing or doubled neighbour, or a field on the wrong component, gives a plausible result for another Hamiltonian.",
 ["dyson/model.py","dyson/lattice.py","dyson/measure.py","dyson/weight.py"],[("models","model.BareFactory"),("positions, paths and Fourier transform","lattice.Lattice"),("averages","measure.Observable")],["bare G and W tables, lattice vectors, reported averages"])
p("C31","Dyson equations and diagram expressions are evaluated exactly",
 "For every lattice shape, number of sublattices, time grid and set of tables, the solver's dressed propagator, interaction, susceptibility and denominators satisfy the Dyson equations with the given self-energy and polarization; a vanishing or sign-changing denominator is refused; its Hartree, Fock, first-order polarization and vertex-function expressions equal the sums over space, time and spin that define them; and no result depends on whether earlier operations left an argument in real space or momentum, time or frequency, nor changes what an argument stands for.",
 ["inputs","histories"],"all tuples of basis functions on a family of shapes; all representation states of shared tables under all operations",
 "The solver's expressions have no test; index, sign and time-shift errors show up only as slightly wrong physics.",
 ["dyson/calculator.py","dyson/gamma3_calc.py","dyson/weight.py"],[("Dyson equations","calculator.G_Dyson, W_Dyson, Calculate_Chi, Calculate_Denorm, Check_Denorminator"),("first-order expressions","calculator.SigmaSmoothT_FirstOrder, SigmaDeltaT_FirstOrder, Polar_FirstOrder, Hartree_FirstOrder"),("vertex functions","gamma3_calc.SimpleGG, AddW_To_GGGammaG, AddTwoW_To_GammaGG and the others")],["returned tables, and arguments after the call"])
p("C32","Values pass between C++ and Python unchanged",
 "A value given from C++ to Python and read back, directly, through a list, tuple, map, array or Dictionary, is the same value of the same type; reading a Python value as a type that cannot hold it exactly (another type, a number out of range, wrong length, an array of other elements) is refused, never altered; what is read depends on the Python value alone, not on what the target held; arrays are seen element by element in index order whatever their layout; Dictionary operations act as on a map of independent copies; calls receive their arguments in order and report Python errors by their kind; and no conversion or call leaks, drops or corrupts a reference or leaves an error pending.",
 ["inputs","histories"],"all values of a set read as all types; all shapes and layouts of arrays within bounds; all sequences of dictionary operations up to a depth; all pairs of calls",
 "Every parameter, table and saved configuration passes through these conversions; a wrapped integer, a misread array or a stale entry changes the physics silently.",
 ["src/utility/pyglue/type_cast.cpp","src/utility/pyglue/type_cast.h","src/utility/pyglue/object.cpp","src/utility/pyglue/pywrapper.cpp","src/utility/pyglue/pywrapper.h","src/utility/pyglue/pyarraywrapper.cpp","src/utility/dictionary.cpp","src/utility/dictionary.h"],[("conversions","Python::Convert and Python::CastToPy"),("references","Python::Object"),("arrays","Python::ArrayObject"),("calls","Python::ModuleObject, AnyObject::EvalScript, PropagatePyError"),("dictionary","Dictionary")],["values read back, exceptions, reference counts"])
p("C33","A worker runs with exactly what its input file says, or refuses to start",
 "For every input file, whatever the order of its entries and whatever else it holds for other programs, each parameter of the job and of the simulation is the one of that name in its section, absent optional ones have their documented default, derived quantities (temperature, lattice, file names, random sequence of the seed) follow from them, and saving and reading the parameters again changes nothing; a file that lacks a parameter, has one of another type or out of range, or lists of weights too short for its order is refused; and a worker starts or continues with the tables and statistics it finds if and only if they have the dimensions of its input file, and then with exactly those numbers.",
 ["inputs","configurations"],"all values of every field alone and with all values of every other field; all pairs of dimensions of a worker and of the files it finds",
 "A parameter read under another's name, a default in its place or a table of another lattice gives a plausible run of another simulation; tests set parameters in the program and never read a file.",
 ["src/module/parameter/parameter.cpp","src/job/job.cpp","src/environment/envMonteCarlo.cpp","src/module/weight/weight.cpp","src/module/weight/weight_array.cpp","src/module/weight/weight_estimator.cpp","src/module/weight/gamma3.cpp"],[("parameters","ParaMC::FromDict, Parameter::_FromDict, Job::Job"),("start and continuation","EnvMonteCarlo::BuildNew, Load"),("dimensions","WeightArray::FromDict, WeightEstimator::FromDict, GammaWClass::WeightFromDict")],["parameters, tables and exceptions"])
p("C34","The solver uses exactly the orders whose statistics are accurate enough",
 "For every collected set of statistics the orders that enter the new self-energy and polarization are the lowest ones up to, and not including, the first order that was not used before and whose error estimate is not below the configured threshold; an order without any data has no error and is never newly accepted, whatever the orders beside it; an order once used stays in use in all later versions; each quantity is the normalised sum of exactly its orders in use; and statistics that leave either quantity without an order are refused.",
 ["inputs","histories"],"every assignment of kinds of data to the orders of both quantities, every threshold between two errors, every pair of orders used before; successive versions",
 "A noisy or empty order taken in distorts every later version and stays in for good; no test runs the acceptance.",
 ["dyson/collect.py","dyson/main.py"],[("error estimate","Smooth"),("acceptance","WeightEstimator.UpdateWeight, UpdateWeight")],["orders accepted","self-energy and polarization"])
p("C35","A worker killed at any moment can be continued and counts nothing twice",
 "Whatever a worker is doing when it dies or a file operation fails - starting anew (also where files of an earlier run are), continuing, running, any part of any save - it can be started again: continued when statistics are on disk, from the beginning otherwise. A continued worker has a configuration (diagram, reweighting factors, random state) that it had when it saved and statistics of a save, each as a whole, both at least as recent as the last completed save, and the statistics never more recent than the configuration, so that no measurement counts twice and at most what came after the last completed save is lost; and it can go on and be saved again.",
 ["crash points","fault sequences","histories"],"every operation on a file in every life of a worker (started, continued, over files of an earlier run), killed before and inside it or failing; again in the life after it",
 "Jobs are killed by the queue or a full disk at any moment; statistics newer than the configuration repeat the same random walk and count it twice with an error bar that is too small, and files that do not fit lose a run of weeks. No test saves or restarts.",
 ["src/environment/envMonteCarlo.cpp","src/utility/dictionary.cpp","IO.py","src/module/diagram/diagram_IO.cpp"],[("start, continuation, saving","EnvMonteCarlo::BuildNew, Load, Save"),("files","SaveDict, SaveBigDict")],["configuration file","statistics file"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
