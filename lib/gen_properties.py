#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


DH = "src/hierarchization/DistributedHierarchization.hpp"
DFG = "src/fullgrid/DistributedFullGrid.hpp"
DSG = "src/sparsegrid/DistributedSparseGridUniform.hpp"

p("C01", "Hierarchical transforms are exactly undone by their inverse",
  "Transforming the values of a distributed full grid into hierarchical coefficients and back (or back and forth, "
  "for any sequence of transforms on any subset of the dimensions undone in reverse order) restores every value up "
  "to rounding, and touches nothing outside the grid's data. This holds for every basis (hat, full weighting, "
  "biorthogonal; periodic or not), level vector, lower transform level, boundary type and data type.",
  ["inputs", "configurations", "histories"],
  "all grids (dimension, levels, boundary flags), process grids and decompositions, bases, lower levels, dimension "
  "subsets, thread counts, data; all sequences of transforms",
  "The tests transform a few fixed grids with fixed decompositions and mostly one basis at a time.",
  [DH], [("hierarchize / dehierarchize kernels and data exchange", DH)], ["grid values after the round trip"])

p("C02", "Distributed transforms equal the serial definition for any decomposition",
  "Hierarchization and dehierarchization of a distributed grid give, at every grid point, the values of the serial "
  "one-dimensional transform applied along each selected dimension, independent of the number of processes, where "
  "the process boundaries lie, and the number of threads. Dimensions that are not selected, and levels up to the "
  "given lower level, stay untransformed.",
  ["inputs", "configurations", "schedules"],
  "all grids, bases, lower levels, dimension subsets, process grids, (uneven) decompositions and thread counts",
  "Tests check a handful of decompositions against analytic values; which remote points a process needs depends on "
  "level, boundary type and where the cut lies, so the combinations are far too many to sample by hand.",
  [DH], [("exchange of remote poles/points per level", DH), ("1-d kernels", DH), ("basis dispatch", DH)],
  ["coefficient at every global grid point"])

p("C03", "Hierarchical coefficients mean what their basis promises",
  "Summing hierarchical hat functions weighted with the hat coefficients reproduces the piecewise multilinear "
  "interpolant of the nodal values at every point of the domain, and hat and biorthogonal detail coefficients of a "
  "function that is multilinear on a coarser grid vanish above that grid's level. For the full-weighting and "
  "biorthogonal bases, dropping any detail coefficients leaves the integral of the represented function unchanged "
  "(mass conservation).",
  ["inputs", "configurations"],
  "all grids, decompositions, lower levels, truncation levels, evaluation points and data",
  "Tests check mass conservation and exactness for a few fixed functions and grids.",
  [DH], [("kernels", DH)], ["integral and point values of the represented function"])

p("C04", "Grid indexing is consistent and partitions the grid over the processes",
  "For every distributed full grid each grid point is owned by exactly one process; conversions between local and "
  "global, linear and vector indices are mutually inverse where defined and report points owned elsewhere as such; "
  "coordinates, hierarchical levels, predecessors, owners, bounds and boundary flags agree with the uniform grid of "
  "the given level. The points a process lists for a hierarchical subspace are exactly its owned points of that "
  "subspace.",
  ["inputs", "configurations"],
  "all dimensions, level vectors, boundary flags, process grids, and default or user-given decompositions",
  "Tests use few small process grids and mostly symmetric decompositions.",
  [DFG, "src/fullgrid/Tensor.hpp", "src/mpi/MPICartesianUtils.hpp", "src/utils/DecompositionUtils.hpp"],
  [("index conversion", DFG), ("tensor indexer", "src/fullgrid/Tensor.hpp"),
   ("default and downsampled decompositions", "src/utils/DecompositionUtils.hpp"),
   ("cartesian rank lookup", "src/mpi/MPICartesianUtils.hpp")],
  ["results of the index conversion functions on every process"])

p("C05", "Interpolation on distributed grids equals multilinear interpolation",
  "Evaluating a distributed grid at any set of points of the closed unit cube gives the piecewise multilinear "
  "interpolant of its nodal values on all processes, with zero values assumed on missing boundaries and periodic "
  "continuation for one-sided boundaries. The result does not depend on the decomposition, on the order of the "
  "points or on how many points are evaluated at once, and the contributions of the processes add up exactly once.",
  ["inputs", "configurations"],
  "all grids, decompositions, data and coordinates, including coordinates on grid points, on process boundaries and "
  "on the domain boundary 0 and 1",
  "Tests interpolate a few smooth functions at fixed points.",
  [DFG], [("local evaluation with upper neighbours and ghost cells", DFG)], ["interpolated values"])

p("C06", "Grid-wide operations do not depend on the decomposition",
  "Norms, gathering the whole grid on one process, corner values, exchanging ghost layers, copying the lower to the "
  "upper periodic boundary and writing the grid to a plot file give the same result as the serial operation on the "
  "assembled grid, for every decomposition, and leave all other values of the grid unchanged.",
  ["inputs", "configurations"],
  "all grids, decompositions, data, dimensions and root processes",
  "Tests use few decompositions; layer exchange and boundary copy are only checked for selected values.",
  [DFG, "src/fullgrid/FullGrid.hpp"],
  [("norms, gather, subarray exchange, boundary copy, plot file", DFG)], ["returned values, grid values, file bytes"])

p("C07", "Combination schemes are valid combinations",
  "Every generated combination scheme (classical or adaptive, truncated, with constant dimensions or unequal level "
  "ranges) covers each hierarchical subspace below one of its grids with coefficients summing "
  "to exactly one, lists no grid twice and none with coefficient zero, stays within the minimum and maximum level "
  "and reaches the diagonal they ask for (grids added for fault tolerance come with coefficient zero). "
  "The down sets, the subspaces of the sparse grid and the degree-of-freedom counts, in total and per process of a "
  "decomposition, agree with counting the grid points.",
  ["inputs"],
  "all dimensions, minimum and maximum level vectors, admissible level sets",
  "Tests compare a few hard-coded schemes.",
  ["src/combischeme/CombiMinMaxScheme.cpp", "src/combischeme/CombiMinMaxScheme.hpp", "src/utils/LevelSetUtils.cpp",
   "src/utils/LevelSetUtils.hpp"],
  [("scheme creation and coefficients", "src/combischeme/CombiMinMaxScheme.cpp"),
   ("down sets and subspace levels", "src/utils/LevelSetUtils.cpp")],
  ["levels and coefficients of the scheme"])

p("C08", "Scheme files and broadcast parameters arrive unchanged",
  "A combination scheme read from a file, by one process or by all of a communicator, arrives complete and in "
  "order with the levels, coefficients and process group numbers of the file; using the group numbers of a file that "
  "has none is rejected. Any file broadcast to all processes (parameter file, scheme) is received "
  "with identical content by every process, and a parameter file is parsed to the same values everywhere.",
  ["inputs", "configurations"],
  "all schemes, group assignments, file contents and sizes, and numbers of processes",
  "Tests read one fixed file.",
  ["src/combischeme/CombiMinMaxScheme.hpp", "src/io/BroadcastParameters.cpp", "src/io/FileInputOutput.cpp"],
  [("json scheme reader", "src/combischeme/CombiMinMaxScheme.hpp"), ("broadcast", "src/io/BroadcastParameters.cpp")],
  ["scheme on every process, file contents"])

p("C09", "Distributing the scheme over groups and systems loses and repeats nothing",
  "However a combination scheme is split up (round robin, by load, by group numbers, over several systems by "
  "fraction), each component grid is assigned exactly once, with its own level and coefficient, to an existing "
  "process group or system.",
  ["inputs", "configurations"],
  "all schemes, numbers of groups and systems, fractions and load estimates",
  "Tests check a few fixed schemes and two systems.",
  ["src/combischeme/CombiMinMaxScheme.hpp", "src/combischeme/CombiThirdLevelScheme.cpp",
   "src/manager/ProcessManager.cpp"],
  [("round robin and file assignment", "src/combischeme/CombiMinMaxScheme.hpp"),
   ("system split", "src/combischeme/CombiThirdLevelScheme.cpp")],
  ["task lists of all groups / systems"])

p("C10", "Sparse grids accumulate and return exactly the registered subspaces",
  "Over any history of registering component grids, allocating, zeroing, adding grids with coefficients and "
  "extracting into grids, the distributed sparse grid holds for every registered subspace and every point of the "
  "process exactly the weighted sum of the added values (with compensated summation not losing accuracy), zero where "
  "nothing was added, and extraction returns those values and leaves points of other subspaces unchanged. Subspace "
  "sizes reported are the owned points of the subspace.",
  ["inputs", "histories", "configurations"],
  "all sequences of register/create/zero/add/extract over generated grids sharing a decomposition, all sizes and "
  "thread counts",
  "Tests do one pass of register, add, extract.",
  [DSG, DFG, "src/sparsegrid/AnyDistributedSparseGrid.cpp"],
  [("register, create, set zero, add, Kahan buffer", DSG), ("extract", DFG)], ["sparse grid data, full grid data"])

p("C11", "The combination is the weighted sum over all groups, for every reduce variant",
  "After a combination every component grid of every process group holds the combined solution restricted to its "
  "grid, that is for each subspace the coefficient-weighted sum of the hierarchical coefficients of all grids "
  "containing it, whichever reduction variant, chunk size, assignment of grids to groups, number of groups and "
  "processes, basis and number of threads is used. Repeating combinations gives the result of repeating the serial "
  "combination. Interpolated values, the evaluation on a full grid of a given level and the reported smallest and "
  "largest coefficients are those of the combined solution.",
  ["inputs", "configurations", "histories", "schedules"],
  "all schemes, group assignments, process grids, reduction variants, chunk sizes, bases, boundary flags, "
  "lower levels, and sequences of solve and combine steps",
  "Tests cover few schemes with one assignment, mostly with constant-valued data.",
  ["src/combicom/CombiCom.hpp", "src/manager/SparseGridWorker.hpp", "src/manager/ProcessGroupWorker.cpp",
   "src/manager/TaskWorker.hpp", DSG],
  [("reduce variants", "src/combicom/CombiCom.hpp"), ("local collect, distribute", "src/manager/SparseGridWorker.hpp")],
  ["values of every component grid after combination"])

p("C12", "Sparse grid files restore exactly what was written",
  "Sparse-grid data written to disk (one file for all processes, one per process, compressed, only some subspaces) "
  "and read back, with the same process layout, restores every value; reading with reduction adds the file's values "
  "exactly once to every value or subspace. This holds for any chunk size and buffer limit, for processes without any "
  "data, and the size files describe the registered subspaces.",
  ["inputs", "configurations"],
  "all subspace layouts, data, process counts, chunk sizes, file modes",
  "Tests write one sparse grid per mode with one chunk size.",
  ["src/sparsegrid/DistributedSparseGridIO.hpp", "src/io/MPIInputOutput.hpp", "src/io/MPICompression.hpp"],
  [("collective file reads and writes", "src/io/MPIInputOutput.hpp"), ("LZ4 frames", "src/io/MPICompression.hpp")],
  ["sparse grid data after reading, bytes of the file"])

p("C13", "Parameters, tasks and containers survive being sent",
  "Combination parameters, tasks, level sets and coordinates sent, broadcast or serialized to another process are "
  "received with every field equal to the sender's, so that all processes act on the same configuration.",
  ["inputs"],
  "all values of the serialized fields, all senders and receivers",
  "Tests serialize one object with default values.",
  ["src/manager/CombiParameters.hpp", "src/task/Task.hpp", "src/mpi/MPIUtils.hpp"],
  [("serialization", "src/manager/CombiParameters.hpp"), ("class transfer", "src/mpi/MPIUtils.hpp")],
  ["received objects"])

p("C14", "After grid faults the recombination is valid without the lost grids",
  "When component grids of a fault tolerant scheme (the same refinement in all combined dimensions) are lost, the "
  "recomputed combination gives every lost grid of the two finest diagonals coefficient zero, uses only grids of the "
  "scheme, and is valid: the coefficients of all grids covering a level sum to zero or one, for the coarsest level to "
  "one whenever that grid is not itself lost on these diagonals; no other such choice covers more (levels weighted by "
  "4^-|l|). Exactly those lost grids of lower diagonals that are still needed are reported for recomputation. Without "
  "relevant losses nothing changes. The process manager reports every lost grid either for recomputation or for "
  "redistribution, hands the new coefficients to all groups, restores the original ones on request, and after the "
  "recovery every grid is computed by exactly one group and combined as before. Static fault injection fails exactly the requested processes at the requested "
  "iterations.",
  ["inputs", "fault_sequences"],
  "all schemes and sets of lost grids",
  "Tests for fault tolerance are not part of the reliably passing suite; they use one fault.",
  ["src/fault_tolerance/FTUtils.cpp", "src/fault_tolerance/LPOptimizationInterpolation.cpp",
   "src/fault_tolerance/StaticFaults.cpp",
   "src/manager/ProcessManager.hpp recomputeOptimumCoefficients", "src/manager/ProcessManager.cpp reInitializeGroup, recompute, restoreCombischeme"],
  [("optimization of coefficients", "src/fault_tolerance/LPOptimizationInterpolation.cpp")],
  ["coefficients after recovery"])

p("C15", "Load models and rescheduling keep tasks and estimates consistent",
  "Load estimates are finite, non-negative and, for learning models, the average of the last recorded "
  "durations of that grid (in whole microseconds); estimates grow with the grid size for static models. Proposed rescheduling moves only "
  "known tasks to existing groups, at most once per task, and never makes the slowest group slower; executing "
  "them keeps every task exactly once, with its data.",
  ["inputs", "histories"],
  "all histories of recorded durations, assignments of tasks to groups and tolerance parameters",
  "Tests use a few fixed durations; the rescheduler has no stable test of its own.",
  ["src/loadmodel/AverageOfLastNLoadModel.cpp", "src/loadmodel/LinearLoadModel.cpp",
   "src/rescheduler/RebalancingTaskRescheduler.cpp"],
  [("history and average", "src/loadmodel/AverageOfLastNLoadModel.cpp"),
   ("rebalancing", "src/rescheduler/RebalancingTaskRescheduler.cpp")],
  ["estimates, proposed moves"])

p("C16", "Processes are arranged in disjoint groups with matching communicators",
  "For every number of groups and processes per group, with or without manager, each worker process belongs to "
  "exactly one group, all group members agree on group number and size, and the communicators between groups connect "
  "exactly the processes with the same rank in their groups (the manager joining where it should). Splitting "
  "reduction or output communicators covers every process exactly once, and re-initialisation behaves like the first.",
  ["configurations", "histories"],
  "all group numbers and sizes, manager or worker-only mode, sequences of re-initialisations",
  "Tests check two layouts.",
  ["src/mpi/MPISystem.cpp", "src/mpi/MPISystem.hpp"],
  [("communicator construction", "src/mpi/MPISystem.cpp")], ["ranks, sizes, roles, communicator members"])

p("C17", "Combining several systems equals combining the union of their schemes",
  "When the component grids are divided over several systems that exchange their sparse grids (by files, or through "
  "their process managers and the third level manager), after the exchange each system's grids hold the same combined solution as if one system had "
  "held all grids, for every division, chunk size, reduction variant and number of rounds.",
  ["inputs", "configurations", "histories"],
  "all schemes, divisions, process layouts, chunk sizes, variants, repeated exchanges",
  "Tests run one division with one solution per mode, many of them not reliably passing.",
  ["src/manager/SparseGridWorker.hpp", "src/manager/ProcessGroupWorker.cpp", "src/io/MPIInputOutput.hpp",
   "src/combicom/CombiCom.hpp", "src/manager/ProcessManager.hpp", "src/manager/ProcessGroupManager.cpp"],
  [("exchange over TCP", "src/manager/ProcessGroupManager.cpp"), ("file based exchange", "src/manager/ProcessGroupWorker.cpp"), ("extra sparse grid", "src/manager/SparseGridWorker.hpp")],
  ["values of the component grids of every system"])

p("C18", "Timing output is complete, ordered and well-formed",
  "The timer file written at the end of a run is valid JSON, contains every finished event of every process exactly "
  "once with non-negative duration and nesting as recorded, and every attribute with its value, whether written at "
  "once or in parts.",
  ["histories", "configurations"],
  "all sequences of start/stop events, attributes and partial writes on any number of processes",
  "Tests write one small file and do not parse it.",
  ["src/utils/Stats.hpp", "src/utils/Stats.cpp"], [("event recording and parallel writing", "src/utils/Stats.hpp")],
  ["the written file"])

p("C19", "Messages between systems arrive intact however the network fragments them",
  "Whatever is sent over the system-to-system connection (text and binary data of any positive length, from systems of "
  "either byte order, forwarded, written to file or reduced on arrival) is received complete, in order and bit-exact "
  "under every fragmentation of the byte stream, without consuming bytes of the following message; a closed connection "
  "is reported as failure, both when sending and when receiving. Two systems connected through the third level manager "
  "receive each other's data in every exchange, and its statistics count the combinations and bytes transferred.",
  ["inputs", "schedules", "fault_sequences"],
  "all message sequences, types, lengths, chunk sizes and fragmentations, and connection losses",
  "The network tests are not in the reliably passing suite and never fragment.",
  ["src/third_level/NetworkUtils.cpp", "src/third_level/NetworkUtils.hpp", "src/third_level/ThirdLevelUtils.hpp",
   "third_level_manager/thirdLevelManager.cpp"],
  [("send/receive framing", "src/third_level/NetworkUtils.cpp")], ["received data"])

p("C20", "A managed run yields the reference result, whatever the distribution of tasks",
  "A run controlled by the manager (tasks added with any load model and number of groups, first run, combinations, "
  "further runs, rescheduling, interpolation, norms) leaves every task with the values of the serial "
  "reference, keeps each task in exactly one group and leaves no group without one however the timing falls, and returns interpolated values and norms of the combined "
  "solution. An operation that has returned has been carried out by every group concerned, with the arguments given "
  "(file names, coordinates, levels), whatever was issued before it.",
  ["inputs", "configurations", "histories", "schedules"],
  "all schemes, layouts and sequences of manager operations",
  "Tests run a fixed sequence for few layouts.",
  ["src/manager/ProcessManager.cpp", "src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupWorker.cpp",
   "src/manager/TaskWorker.hpp", "src/manager/InterpolationWorker.hpp"],
  [("signals between manager and groups", "src/manager/ProcessGroupWorker.cpp")],
  ["task values, interpolated values, task to group map"])

p("C21", "Serial full grids agree with the distributed ones",
  "A serial full grid gives, for every level vector, boundary choice and data, the same coordinates, levels, "
  "interpolated values, norms and hierarchical coefficients as the uniform grid definition, so that gathered grids "
  "can be processed serially; its hierarchization is undone exactly by dehierarchization.",
  ["inputs"],
  "all dimensions, levels, boundary flags, data and evaluation points",
  "Tests evaluate few functions.",
  ["src/fullgrid/FullGrid.hpp", "src/hierarchization/Hierarchization.hpp", "src/fullgrid/MultiArray.hpp"],
  [("evaluation", "src/fullgrid/FullGrid.hpp"), ("serial transform", "src/hierarchization/Hierarchization.hpp")],
  ["values of the serial grid"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
