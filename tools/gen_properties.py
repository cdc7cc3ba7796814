"""Writes properties.jsonl (kept as a script so that the list stays readable and diffable)"""
import json
from pathlib import Path

B = "nevergrad/optimization/base.py"
OL = "nevergrad/optimization/optimizerlib.py"
OU = "nevergrad/optimization/utils.py"
PC = "nevergrad/parametrization/core.py"
PD = "nevergrad/parametrization/data.py"
PDL = "nevergrad/parametrization/_datalayers.py"
PL = "nevergrad/parametrization/_layering.py"
PCO = "nevergrad/parametrization/container.py"
PCH = "nevergrad/parametrization/choice.py"
PDI = "nevergrad/parametrization/discretization.py"
PT = "nevergrad/parametrization/transforms.py"
PH = "nevergrad/parametrization/helpers.py"
PM = "nevergrad/parametrization/mutation.py"
PU = "nevergrad/parametrization/utils.py"
PI = "nevergrad/parametrization/instantiate.py"
RC = "nevergrad/optimization/recaster.py"
RL = "nevergrad/optimization/recastlib.py"
DE = "nevergrad/optimization/differentialevolution.py"
OS = "nevergrad/optimization/oneshot.py"
SQ = "nevergrad/optimization/sequences.py"
MU = "nevergrad/optimization/mutations.py"
MC = "nevergrad/optimization/multiobjective/core.py"
MH = "nevergrad/optimization/multiobjective/hypervolume.py"
MN = "nevergrad/optimization/multiobjective/nsga2.py"
CB = "nevergrad/optimization/callbacks.py"
BC = "nevergrad/benchmark/core.py"
BX = "nevergrad/benchmark/xpbase.py"
BE = "nevergrad/benchmark/execution.py"
BU = "nevergrad/benchmark/utils.py"
BP = "nevergrad/benchmark/plotting.py"
FB = "nevergrad/functions/base.py"
FL = "nevergrad/functions/functionlib.py"
FU = "nevergrad/functions/utils.py"
CT = "nevergrad/common/tools.py"
CD = "nevergrad/common/decorators.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe,
                hook_needed=hook,
            ),
        )
    )


# ---------------------------------------------------------------- ask / tell core
prop(
    "A01",
    "Ask/tell accounting is exact under every interleaving",
    "For any interleaving of ask and tell calls, the optimizer's counts of asked points, told points and points told without having been asked equal what actually happened; a point told a second time, or which was suggested rather than proposed by the optimizer, counts as told-not-asked. Every asked candidate is a new frozen object with a unique id which records the loss it was told, and each registered ask/tell callback runs exactly once per call, with the arguments of that call.",
    ["schedules", "histories", "configurations"],
    "every sequence of ask / tell / re-tell / foreign tell / recommend calls, in and out of order, with several candidates in flight, for every optimizer family",
    "tests ask and tell in a fixed order, mostly sequentially, and check the counters at the end of one run",
    [B, OL],
    [("ask/tell counters and asked-uid set", f"{B}: Optimizer.ask, Optimizer.tell"), ("callbacks", f"{B}: register_callback")],
    ["num_ask, num_tell, num_tell_not_asked after every call", "callback invocations", "candidate.loss / frozen state"],
)
prop(
    "A02",
    "Best points always match the whole evaluation history",
    "After every tell, the point reported as best under each loss estimate (mean, smallest observed, optimistic and pessimistic confidence bound) minimises that estimate over the points told so far, where a point's estimate is computed from all the losses told for it. This holds with repeated evaluations, ties, noisy values and out-of-order tells; pruning old points from memory keeps the current best points and never more than half of the worst remembered ones are lost. Also, on noise-free problems without repeated evaluations, the default recommendation (of optimizers which recommend a told point) is a point with the smallest loss ever told. Optimizers with the default recommendation recommend the point with the smallest observed loss (with the smallest pessimistic bound when the function is declared as not deterministic), as the candidate which was told its smallest loss.",
    ["histories", "inputs"],
    "all sequences of (point, loss) reports including repeats, and archives long enough to be pruned",
    "tests use a handful of tells with increasing losses; they never recompute the minimum over a long noisy history with repeats",
    [B, OU],
    [("archive and current bests update", f"{B}: Optimizer._update_archive_and_bests"), ("estimates", f"{OU}: MultiValue"), ("pruning", f"{OU}: Pruning")],
    ["current_bests after each tell", "provide_recommendation"],
)
prop(
    "A03",
    "Extreme and undefined losses never corrupt the optimizer",
    "Reporting NaN, infinite, huge or tiny losses, or losses given as any numeric scalar type, never makes later ask, tell or recommend calls fail, and never makes a point with an undefined or infinite loss be reported as best (under any estimate, or by optimizers which recommend the best told point) while a point with a smaller finite loss was reported. Losses which are not a number or a one-dimensional sequence of numbers are rejected with an error, as is a change in the number of objectives, without counting as a told point.",
    ["fault_sequences", "inputs", "configurations"],
    "every sequence mixing ordinary losses with NaN, +-inf, huge, negative, integer, numpy and array losses, over the main optimizer families",
    "tests send one NaN or inf to a few optimizers and do not look at what is recommended afterwards",
    [B, OL, DE],
    [("loss clipping and type checks", f"{B}: Optimizer.tell"), ("per-optimizer handling", f"{OL}, {DE}")],
    ["ask/tell/provide_recommendation results under loss faults"],
)
prop(
    "A04",
    "Suggested points are asked exactly once, most recent first",
    "Every suggested point is returned by an ask with exactly the suggested value, most recent suggestion first, before the optimizer proposes points of its own, and exactly once. (Only a suggestion violating a cheap constraint, or in the tabu list of the optimizers which have one, may be dropped.) Suggestions with values outside the domain are refused and leave the optimizer unchanged, and telling a suggested candidate is accepted (or refused with the dedicated error), competes for the best point like any other, and is accounted as told without having been proposed by the optimizer.",
    ["histories", "schedules", "configurations"],
    "all interleavings of suggest with ask and tell, for all optimizers and parametrizations",
    "tests suggest one or two points up front to a few optimizers",
    [B, OL],
    [("suggestion stack", f"{B}: Optimizer.suggest, Optimizer.ask")],
    ["values returned by ask", "counters"],
)
prop(
    "A05",
    "Points evaluated elsewhere can be told at any time",
    "Telling a point which was not asked, at any moment (before the first ask, between asks, with other points in flight), either is accepted or raises the dedicated not-supported error; when accepted, it counts as told-not-asked and competes for the best point like any other. Afterwards asking, telling asked points and recommending go on working.",
    ["histories", "configurations"],
    "all positions and numbers of foreign tells within ask/tell histories, for all optimizers",
    "tests perform one foreign tell per optimizer at a fixed position and only check that it does not crash",
    [B, OL, DE],
    [("tell-not-asked path", f"{B}: Optimizer.tell, Optimizer._internal_tell_not_asked"), ("population replacement", f"{DE}, {OL}")],
    ["num_tell_not_asked", "current bests", "errors raised"],
)
prop(
    "M01",
    "minimize evaluates exactly the budget, each point once, with its own loss",
    "A complete run of minimize with budget B calls the objective exactly B times, on exactly the points which were asked, and tells each point the loss of its own evaluation exactly once, whatever the executor, number of workers, batch mode, verbosity and order in which evaluations finish. At no time are more evaluations pending than the number of workers, in batch mode a batch is fully collected before the next one is submitted, and the returned recommendation equals the one provided after the last tell.",
    ["schedules", "configurations"],
    "all completion orders and delays of the executor's jobs, all (budget, workers, batch mode, verbosity, optimizer) combinations",
    "tests run one or two executors with fixed delays and compare a few recorded traces",
    [B, OU],
    [("minimize loop", f"{B}: Optimizer.minimize"), ("sequential executor", f"{OU}: SequentialExecutor, DelayedJob")],
    ["submit/done/result events at the executor boundary", "objective calls", "tell calls"],
)
prop(
    "M02",
    "Interrupted minimize runs resume without losing or duplicating anything",
    "If a minimize run is interrupted at any point by an error in the objective, the executor or a callback, by a stopping criterion, or by the time limit, the exception (other than a stop request raised while asking, which ends the run normally) reaches the caller, the counters equal the asks and tells which took place, and calling minimize again continues (raising again the error of an evaluation whose failure persists). Over the interrupted and resumed runs every evaluation which succeeded is told exactly once with its own loss, no failed evaluation is told, and the total number of asks never exceeds the budget.",
    ["fault_sequences", "crash_points", "schedules"],
    "every position and kind of fault in the run (objective, executor submit, callback, early stop, time limit), repeated faults, all worker counts",
    "one test interrupts one run at one fixed position with a sequential executor",
    [B, CB],
    [("running/finished job queues and re-entry", f"{B}: Optimizer.minimize"), ("early stopping", f"{CB}: EarlyStopping")],
    ["objective calls and outcomes", "tells", "num_ask/num_tell across interruptions"],
)
prop(
    "D01",
    "Every proposed point lies in the declared domain",
    "For every optimizer and every parametrization, every asked candidate and every recommendation has a value inside the declared domain: bounds, integer casting, choice options, shapes, structure and constants. Its positional and keyword arguments are consistent with that value, and re-reading the value gives the same result.",
    ["configurations", "histories", "inputs"],
    "all registered optimizers, all parametrization trees (bounded, logarithmic, integer, choices, nested containers) and all histories of losses",
    "tests check bounds for a few optimizers on single hand-written parametrizations",
    [OL, B, PD, PDL, PCH, PCO],
    [("bounds layers", f"{PDL}"), ("candidate generation", f"{OL}"), ("choices", f"{PCH}")],
    ["value, args, kwargs of each asked candidate and recommendation"],
)
prop(
    "R01",
    "Seeding the parametrization makes the optimization reproducible",
    "Two optimizers of the same kind built on equal parametrizations whose random state was seeded identically, and fed the same losses, propose the same sequence of points and the same recommendation. This does not depend on the global random state, on other optimizers used in between, or on when and how often the recommendation is requested.",
    ["histories", "configurations", "schedules"],
    "all seeds, loss histories, interleavings of instances and global random-state perturbations, over the registered optimizers",
    "the recorded-recommendation test fixes the global seed too, uses a budget of a few points, and never interleaves instances",
    [B, OL, PC, OS, MU, DE],
    [("random state propagation", f"{PC}: Parameter.random_state"), ("optimizer rng", f"{B}: Optimizer._rng")],
    ["asked values, recommendations of paired runs"],
)
prop(
    "R02",
    "A dumped optimizer resumes exactly where it stopped",
    "An optimizer dumped to disk after any number of asks and tells (including with points still in flight) and loaded again, possibly in another process, has the same counts and recommendation and then behaves exactly like the original: same subsequent points and recommendations for the same losses. Dumping leaves the original unaffected.",
    ["crash_points", "histories", "configurations"],
    "every cut point of the history and every picklable optimizer (with replay enabled for those which need it)",
    "tests dump each optimizer at one single point and compare at most the recommendation",
    [B, RC, OL],
    [("pickling", f"{B}: Optimizer.dump, Optimizer.load"), ("replay of sequential recast optimizers", f"{RC}: SequentialRecastOptimizer")],
    ["continuations of original and reloaded optimizers"],
)
prop(
    "C01",
    "Cheap constraints are honoured or reported",
    "With cheap constraints registered, every asked candidate satisfies them unless a failed-constraint warning is emitted; a violating candidate which is told can not displace a satisfying one as recommendation, and a point told with constraint violations is penalised by an amount growing with the violations. The constraint projection layer yields values satisfying the constraint, or the least violating one it tried, and recently visited points are avoided when a tabu list is set.",
    ["inputs", "histories", "configurations"],
    "all constraints (boolean or signed), feasibility ratios, optimizers, histories and violation amounts",
    "tests check a few half-space constraints on a few optimizers",
    [B, PC, "nevergrad/ops/constraints.py", OU, PU],
    [("resampling and penalty", f"{B}: Optimizer.ask, Optimizer.tell"), ("satisfaction and tabu", f"{PC}: Parameter.satisfies_constraints"), ("penalty", f"{PU}: float_penalty")],
    ["asked candidates and warnings", "recommendations", "loss used for penalised points"],
)
# ---------------------------------------------------------------- multiobjective
prop(
    "H01",
    "Hypervolume is computed exactly",
    "The hypervolume reported for any finite set of points within any reference point equals the measure of the region dominated by the points and bounded by the reference, in any number of objectives. It does not depend on the order or duplication of points, never decreases when a point is added, and does not modify its inputs or depend on previous computations.",
    ["inputs"],
    "all point sets (ties, duplicates, degenerate, dominated, out-of-reference points) in 1 to 6 objectives",
    "tests compare a few fixed small sets",
    [MH],
    [("hypervolume recursion", f"{MH}: HypervolumeIndicator"), ("linked lists", f"{MH}: VectorLinkedList")],
    ["compute results against an independent exact integrator"],
)
prop(
    "H02",
    "The Pareto front is exactly the set of non-dominated points told so far",
    "At any moment of a multiobjective run the Pareto front contains every distinct told loss vector within the reference which is not dominated by another told one, no member of the front is dominated by any told point, and every member is a told candidate with its losses, in every number of objectives and whatever the order of tells. Asking for a subset of given size returns that many distinct members of the front (or the whole front if smaller), whichever selection criterion and parametrization are used, and never alters the front.",
    ["histories", "inputs"],
    "all sequences of multi-dimensional losses, with ties and duplicates, before and after reference bounds are determined",
    "tests look at one short fixed sequence with two objectives",
    [MC, B],
    [("pareto filtering", f"{MC}: ParetoFront"), ("accumulation", f"{MC}: HypervolumePareto"), ("reference", f"{B}: Optimizer.tell")],
    ["pareto_front() after each tell", "losses of its members"],
)
prop(
    "H03",
    "Scalarised multiobjective losses are consistent with dominance",
    "The scalar loss derived from a vector loss is consistent with improvement of the Pareto front: a point which enlarges the dominated hypervolume gets the negated new hypervolume; a dominated point within the reference gets that value plus its smallest excess over a front member dominating it, hence is never better than the front; a point beyond the reference gets its total excess. The best hypervolume never decreases and equals the hypervolume of the told points within the reference, and automatic reference bounds are the worst values over the initial points.",
    ["histories", "inputs"],
    "all sequences of vector losses inside and outside the reference bounds, given or automatically determined",
    "tests check a fixed sequence of five 2-d losses",
    [MC, MH, B],
    [("loss computation", f"{MC}: HypervolumePareto._calculate_metrics / _calc_hypervolume"), ("auto bound", f"{MC}: HypervolumePareto._add_to_pareto")],
    ["scalar loss of each told candidate", "best volume sequence"],
)
prop(
    "H04",
    "Non-dominated sorting and crowding rank points by Pareto dominance",
    "Ranking a population partitions all of it into successive fronts such that each front is exactly the non-dominated set of what remains, for any number of objectives, ties and duplicates; no candidate is lost or repeated. Within a front the crowding distance follows its definition (infinite for the extremes of each objective, otherwise the sum of normalised neighbour gaps), and selecting n candidates keeps the best fronts and, in the cut front, the least crowded points.",
    ["inputs"],
    "all populations in 1 to 5 objectives including ties, duplicates and cyclic better-than relations",
    "tests use a few fixed two-objective populations",
    [MN],
    [("non-dominated ranking", f"{MN}: FastNonDominatedRanking"), ("crowding", f"{MN}: CrowdingDistance"), ("selection", f"{MN}: rank")],
    ["fronts, distances, rank dictionary against brute force"],
)
# ---------------------------------------------------------------- recast
prop(
    "T01",
    "Wrapped external optimizers see exactly the losses of the points they asked",
    "For optimizers which wrap an external minimiser, the wrapped minimiser behaves as if it called the objective directly: each value it receives is the loss told for the very point it requested, in the same order, with nothing lost, duplicated or swapped, whatever the delays between ask and tell. Extra tells of foreign points do not disturb this, errors inside the wrapped minimiser are handled without deadlock, and disposing of the optimizer at any time stops its background activity.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of the background activity with ask/tell/dispose and all points where the wrapped minimiser fails or finishes early",
    "tests run one scripted function and check one sequence of values",
    [RC, RL],
    [("message passing", f"{RC}: _MessagingThread, MessagingThread"), ("ask/tell pairing", f"{RC}: RecastOptimizer, SequentialRecastOptimizer, BatchRecastOptimizer")],
    ["values received by the wrapped minimiser", "threads alive", "asked points"],
)
# ---------------------------------------------------------------- composite / populations
prop(
    "X01",
    "Composite optimizers route points and losses to the right sub-optimizer",
    "Optimizers built from others (portfolios, chains, splits over variables, rescaling, competence maps) hand each candidate's loss back, exactly once, to the sub-optimizer which proposed it and in the coordinates it proposed, and never give a sub-optimizer a loss belonging to another point. A chain uses each stage for its own share of the budget in order, a split gives each sub-optimizer its own disjoint set of variables covering all of them, and a portfolio keeps all members in use until its warm-up is over and then only the one behind the best point.",
    ["histories", "configurations", "schedules"],
    "all compositions, budgets, worker counts and orders of tells",
    "tests only check final losses or a few recorded recommendations",
    [OL],
    [("portfolio", f"{OL}: Portfolio"), ("chain", f"{OL}: _Chain"), ("split", f"{OL}: SplitOptimizer"), ("rescale", f"{OL}: _Rescaled")],
    ["asks and tells received by probe sub-optimizers"],
)
prop(
    "X02",
    "Elitist and population optimizers never lose their best individuals",
    "Differential evolution keeps at most its population size of individuals, the loss of each individual's slot never increases on single-objective problems, and every slot keeps being used as a parent (points told from elsewhere only replace the worst individual); particle swarms keep a global best which is the best told point. The one-plus-one strategy always starts its mutation from a best point, whatever the order of tells and the number of workers.",
    ["histories", "schedules", "configurations"],
    "all loss sequences and out-of-order tells for the evolutionary families",
    "tests only check final losses on the sphere function",
    [DE, OL, OU],
    [("slot replacement", f"{DE}: _DE._internal_tell_candidate"), ("fair queue", f"{OU}: UidQueue"), ("PSO best", f"{OL}: _PSO")],
    ["heritage/parents of asked candidates", "population losses"],
)
prop(
    "V01",
    "Variation operators only recombine or mutate what they are given",
    "Every crossover returns a vector of the same size in which each coordinate comes from one of the parents (or, for rotated variants, a parent's coordinate), every discrete mutation changes at least one coordinate and leaves unselected coordinates exactly unchanged, and adaptive mutation counts follow the requested rate. Operators use only the random state they were given and never modify the arrays they receive unless that is their documented output.",
    ["inputs"],
    "all dimensions, arities, parents, rates and random states",
    "tests check one or two seeds for each operator",
    [MU, DE],
    [("mutators", f"{MU}: Mutator"), ("DE crossovers", f"{DE}: Crossover")],
    ["inputs and outputs of the operators"],
)
prop(
    "S01",
    "Low-discrepancy and stratified samplers keep their guarantees",
    "Point sequences stay within the unit cube, Latin hypercube samples put exactly one point in every slice of every coordinate, and Halton/Hammersley sequences are the van der Corput sequences in successive primes (scrambled ones permute digits, so that every aligned block of base^k points hits every elementary interval once). A sampler restarted from its state replays the same points, and rescaling maps the extreme points of the sample onto the unit cube's faces.",
    ["inputs", "configurations"],
    "all dimensions, budgets and seeds",
    "tests compare a few 2-d points",
    [SQ],
    [("samplers", f"{SQ}: LHSSampler, HaltonSampler, HammersleySampler"), ("rescaling", f"{SQ}: Rescaler")],
    ["sampled points"],
)
prop(
    "S02",
    "One-shot optimizers never let losses influence the points they ask",
    "The sequence of points asked by any one-shot optimizer depends only on its configuration, budget and seed, not on the losses it is told, on their order or on whether they are told at all. Sampling-based designs ask the whole design for the budget, quasi-opposite variants pair points symmetrically, middle-point variants start at the center, and the recommendation is a told point or the documented averaging of the best ones.",
    ["histories", "schedules", "configurations"],
    "all loss sequences, tell orders, missing tells, budgets, dimensions and one-shot configurations",
    "tests compare a few recorded recommendations",
    [OS, SQ],
    [("one-shot asks", f"{OS}: _RandomSearch, _SamplingSearch")],
    ["asked points of paired runs with different losses"],
)
# ---------------------------------------------------------------- parametrization
prop(
    "P01",
    "Standardized representation round-trips for every parametrization",
    "For every parametrization and every value in its domain, converting a parameter to its standardized vector and applying it to a fresh child of the same reference restores the same value and the same vector; the vector's size is the dimension, and the reference itself maps to zero in its continuous coordinates. Containers concatenate their children's vectors in a fixed order independent of which keys were set first, with data of one child never affecting another, and vectors of the wrong size are rejected.",
    ["inputs", "programs"],
    "all parametrization trees, values, references and vectors",
    "tests check a few hand-written parametrizations with one or two values",
    [PC, PD, PCO, PCH, PDL],
    [("standardization", f"{PC}: get_standardized_data/set_standardized_data"), ("container concatenation", f"{PCO}"), ("bounds transform", f"{PDL}")],
    ["vectors and values after round trips"],
)
prop(
    "P02",
    "Parameter values are set exactly or refused",
    "Setting any admissible value on a parameter makes reading it return that value (rounded for integer parameters, to float precision through transforms); values outside the bounds, of the wrong shape, or not among the options are refused with an error. Constructing a parameter refuses inconsistent bounds or initial values, reading a value never changes it, and values handed in or out are not aliased to the parameter's internal state.",
    ["inputs", "programs", "histories"],
    "all parameter types, bounds methods, values (including at and just beyond the bounds, integers, lists, numpy types) and read/write sequences",
    "tests check a few values well inside the bounds",
    [PD, PDL, PCH, PL],
    [("value setting", f"{PD}: Data._layered_set_value"), ("bound checks", f"{PDL}: Bound, BoundLayer"), ("casting", f"{PL}: Int")],
    ["values read after writes", "errors"],
)
prop(
    "P03",
    "Children, copies and samples are independent of their source",
    "Mutating, setting or sampling a child, copy or sample of a parameter never changes the source or any sibling, and conversely, at any depth of the tree, including layers, metadata and inherited information. A child records its parent and is one generation older, a copy has the same values, and frozen parameters refuse every modification while remaining readable and copyable.",
    ["histories", "programs"],
    "all parametrization trees and all sequences of spawn/copy/sample/mutate/recombine/set/freeze/pickle operations on families of related parameters",
    "tests check single operations on a few parameters",
    [PC, PD, PCO, PCH, PL, PU],
    [("copying", f"{PC}: Parameter.copy, spawn_child"), ("layer copies", f"{PL}: Layered.copy"), ("freezing", f"{PC}: Parameter.freeze")],
    ["values and vectors of all relatives after each operation"],
)
prop(
    "P04",
    "Transforms are exact inverses that respect their bounds",
    "Every data transform maps any real input into its declared range, is monotone where it is a bijection, and mapping back and forth returns the original point for every point of the domain up to float precision; points outside the range are refused on the way back. This holds for scalar and array bounds, one-sided bounds, and extreme magnitudes.",
    ["inputs"],
    "all transforms, bounds, shapes and magnitudes",
    "tests check a few fixed transforms on a few numbers",
    [PT],
    [("transforms", f"{PT}: TanhBound, ArctanBound, Clipping, CumulativeDensity, Exponentiate, Affine, Fourrier")],
    ["forward/backward results"],
)
prop(
    "P05",
    "Choices and discretization select valid options with the declared odds",
    "A choice parameter always selects one of its declared options for each repetition, its value is that option's current value, and setting it to an option selects that option. Sampled choices follow the softmax of their weights (all options reachable from the initial state), deterministic evaluation picks the most likely option, and ordered choices cover every option and round-trip through their standardized vector.",
    ["inputs", "histories"],
    "all option lists (including nested parameters, duplicates and repetitions), weights, standardized vectors and random states",
    "tests check a few choices with fixed seeds",
    [PCH, PDI, PDL],
    [("choice indices", f"{PCH}"), ("softmax sampling", f"{PDI}: Encoder; {PDL}: SoftmaxSampling"), ("thresholding", f"{PDI}")],
    ["indices, values, empirical frequencies"],
)
prop(
    "P06",
    "Arithmetic on parameters matches numpy and can be inverted",
    "The value of a parameter built by arithmetic, power, exponentiation or modulo of another equals the same numpy operation applied to the original's value, after any mutation, sampling or standardized update. Where the operation is invertible, setting the result's value sets the corresponding base value, and the original parameter is left unchanged.",
    ["inputs", "programs"],
    "all compositions of operations, operand values and updates",
    "tests check one composition with one value",
    [PDL, PD, PL],
    [("operation layers", f"{PDL}: Add, Multiply, Power, Exponent, Modulo"), ("casting", f"{PL}: ArrayCasting, _ScalarCasting")],
    ["values against numpy evaluation"],
)
prop(
    "P07",
    "Sampling and mutating parameters stays in the domain and is seedable",
    "Sampling, mutating, recombining or applying any real vector to any parameter gives a value in its declared domain with unchanged structure, and initial values are kept by unmodified children. With the random state seeded, the sequence of results is reproducible, independent of the global random state, shared by all sub-parameters and descendants, and unaffected by activity on other parameters.",
    ["inputs", "programs", "histories"],
    "all parametrization trees, operation sequences, vectors of any magnitude and seeds",
    "tests check a few parametrizations with small perturbations",
    [PC, PD, PDL, PCO, PCH],
    [("sampling/mutation", f"{PC}: Parameter.sample, mutate"), ("random state", f"{PC}: Parameter.random_state")],
    ["values after each operation", "paired seeded runs"],
)
prop(
    "P08",
    "Custom mutations and crossovers keep shape and content",
    "Array crossovers take every entry from one of the parents at the same position and respect the crossover size limits, translations and jumps permute entries along the chosen axes without creating or losing any, and localized noise changes only one contiguous window. Custom mutation and recombination settings are inherited by children and kept inside containers, and the default recombination is the mean of the parents in the standardized space.",
    ["inputs"],
    "all shapes, axes, sizes, parents and seeds",
    "tests check one shape with one seed",
    [PM, PD],
    [("mutations", f"{PM}: Crossover, RavelCrossover, Translation, Jumping, LocalGaussian")],
    ["arrays before and after"],
)
# ---------------------------------------------------------------- external code, benchmarks, functions
prop(
    "F01",
    "External code is instantiated faithfully and in isolation",
    "Calling a parametrized folder replaces every placeholder by the given value in a private copy, runs the command there and returns the number on the last output line, leaving the original folder unchanged and no temporary files behind, including with concurrent calls and failing commands. Missing, extra or duplicated parameter names are refused, and failures of the command surface with its error output.",
    ["inputs", "schedules", "fault_sequences"],
    "all folder trees, placeholder names, values, concurrent calls and command outcomes",
    "tests call one example folder sequentially",
    [PI, PU],
    [("instantiation", f"{PI}: FolderInstantiator"), ("commands", f"{PU}: CommandFunction, TemporaryDirectoryCopy")],
    ["instantiated file contents", "folder digests", "return values and errors"],
)
prop(
    "B01",
    "Split and resumed benchmarks run every experiment exactly once",
    "However a benchmark is split into chunks, recursively or not, and however often a chunk's computation is interrupted by errors and resumed, every experiment of the plan is executed exactly once successfully and appears exactly once in the results, with the settings and seed it has in the unsplit plan. Sequential and parallel execution give the same set of results.",
    ["fault_sequences", "configurations", "schedules"],
    "all numbers of experiments, repetitions, splits, failure positions and resumptions",
    "tests check one split and one resumption",
    [BC],
    [("index arithmetic", f"{BC}: Moduler, BenchmarkChunk.split"), ("resumption", f"{BC}: BenchmarkChunk.compute")],
    ["experiments executed", "result rows"],
)
prop(
    "B02",
    "Simulated parallel execution follows simulated time",
    "The simulated executor delivers every submitted job exactly once, in order of simulated completion time (ties by submission), where a job's completion is its submission time plus its duration and submission happens at the completion time of the last delivered job; batch mode delivers at the end of the batch. Simulated time never decreases and every job's result is that of its own call.",
    ["schedules", "inputs"],
    "all duration functions, worker counts, batch modes and submission patterns",
    "tests check a fixed sequence of durations",
    [BE],
    [("priority queue and clock", f"{BE}: MockedTimedExecutor, MockedTimedJob, OrderedJobs")],
    ["order of done/result events", "executor time"],
)
prop(
    "B03",
    "Seeded experiments are reproducible and report what happened",
    "Running a seeded experiment twice, in any order with other experiments or in another process, gives identical results, and the seeds delivered to the experiments of a seeded plan are reproducible, independent of the global random streams and do not repeat. The reported loss is the evaluation of the recommended point, the reported budget, workers and optimizer are those requested, the number of objective calls is the budget, and a failing optimizer is reported as an error instead of a result.",
    ["configurations", "histories", "fault_sequences"],
    "all functions, optimizers, budgets, worker counts, seeds and orders of execution",
    "tests check one or two experiments",
    [BX],
    [("seeding", f"{BX}: Experiment, create_seed_generator"), ("summary", f"{BX}: Experiment.get_description")],
    ["result dictionaries", "objective calls"],
)
prop(
    "B04",
    "Benchmark result tables are conserved by saving, merging and selection",
    "Appending results to a file keeps every earlier row and adds each new row exactly once whatever the columns, and selection by column values returns exactly the matching rows. Pairwise win rates computed from results count each comparison once: for every pair of optimizers on a common setting the two victories sum to one, ties being shared, and results that are not numbers never win.",
    ["inputs", "histories"],
    "all result tables, columns, append sequences, selections and optimizer names",
    "tests check one small table",
    [BC, BU, BP],
    [("append", f"{BC}: save_or_append_to_csv"), ("selection", f"{BU}: Selector"), ("victories", f"{BP}: _make_winners_df, aggregate_winners")],
    ["tables before/after"],
)
prop(
    "F02",
    "Benchmark functions are deterministic up to declared noise and transforms",
    "An artificial test function's noise-free evaluation (of a core function which is not itself noisy) is a deterministic function of its input and seed which reaches the core function's optimum at its translated optimum, uses every useful variable exactly once across disjoint blocks, and ignores exactly the declared number of useless variables. Noise only enters the noisy evaluation, is centered on nothing but the true value plus the declared noise model, and vanishes at zero noise level.",
    ["inputs", "configurations"],
    "all core functions, block structures, noise, rotation, translation, split and seed settings",
    "tests check recorded values on a few configurations",
    [FL, FU],
    [("block transforms", f"{FL}: ArtificialVariable, ArtificialFunction; {FU}: Transform")],
    ["function values under perturbations"],
)
prop(
    "F03",
    "Copies of benchmark functions are equivalent and independent",
    "Copying an experiment function gives an equal function with its own parametrization and random state: using either one never changes the other's parametrization, and two functions are reported equivalent exactly when they share class, descriptors and parametrization name. Calling the function passes its arguments unchanged, evaluating a recommendation defaults to one call with its arguments, symmetrised variants flip exactly one subset of the coordinates each about the middle of the domain, and multi-objective aggregates return each member's value in order.",
    ["inputs", "programs"],
    "all function classes, arguments, symmetries and call sequences",
    "tests check a few functions",
    [FB],
    [("copy and equality", f"{FB}: ExperimentFunction.copy, equivalent_to"), ("symmetry", f"{FB}: ArrayExperimentFunction"), ("multi", f"{FB}: MultiExperiment")],
    ["values and descriptors of original and copies"],
)
# ---------------------------------------------------------------- callbacks, utilities
prop(
    "L01",
    "Logging callbacks record every event once and can be read back",
    "A parameters log contains exactly one readable record per tell, in order, with the losses, counts and parameter values of that tell, whatever the values (made of numbers, strings, arrays, lists and dictionaries), can be flattened, and survives appending across runs and abrupt process ends. A dump callback leaves on disk, at each tell, an optimizer which can be loaded and has all the tells completed so far, and printed, logged and progress-bar outputs reflect the true number of tells at the requested interval of tells or seconds, for one or several objectives.",
    ["histories", "crash_points", "configurations"],
    "all optimizers, parametrizations, histories, restarts and intervals",
    "tests log one short run and compare the record count",
    [CB],
    [("logger", f"{CB}: ParametersLogger"), ("dump", f"{CB}: OptimizerDump"), ("printers", f"{CB}: OptimizationPrinter, OptimizationLogger")],
    ["log lines against observed tells", "printed lines"],
)
prop(
    "L02",
    "Early stopping criteria fire exactly when their condition first holds",
    "A minimize run with a stopping criterion stops before the first ask at which the criterion is true and at no other point, all started evaluations being told: the no-improvement criterion stops once more than the given number of asks passed since the one which saw the best recommended loss (the best told loss when the recommended point was never evaluated, the pareto front with several objectives), the duration criterion not before its duration from the first ask and at the next ask after it, and custom criteria see the optimizer's current state. Without a criterion becoming true the whole budget is used.",
    ["histories", "configurations"],
    "all loss sequences, tolerances, budgets and worker counts",
    "tests check one constant-loss run",
    [CB, B],
    [("criteria", f"{CB}: EarlyStopping, _LossImprovementToleranceCriterion, _DurationCriterion"), ("stop handling", f"{B}: Optimizer.minimize")],
    ["number of asks/tells at stop", "loss history"],
)
prop(
    "U01",
    "Shared iteration, registry and container utilities obey their contracts",
    "Grouping, pairing and round-robin iterators yield every element exactly once in order, ordered sets behave as sets which remember insertion order, registries return what was registered under each name and refuse duplicates, and environment overrides are undone on exit whatever happens inside. The evaluation archive behaves as a map keyed by point, and the fair queue hands out every waiting identifier before repeating one.",
    ["inputs", "histories"],
    "all inputs and operation sequences",
    "tests check one example of each",
    [CT, CD, OU],
    [("tools", f"{CT}"), ("registry", f"{CD}: Registry"), ("archive, queue", f"{OU}: Archive, UidQueue")],
    ["operation results against reference models"],
)

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
