"""Which campaigns decide which property."""


def camp(bin, arg, np, quick, thorough, **kw):
    return dict(bin=bin, arg=arg, np=np, quick=quick, thorough=thorough, **kw)


PROPS = {
    "C01": dict(
        campaigns=[camp("h_transform", "C01", 8, 30000, 600000)],
        rule="random grid (1-5 dims, levels, boundary type per dim, process grid, default or arbitrary "
             "decomposition), 1-3 random transform steps (basis, lower level, dimension subset, direction) "
             "applied and then undone in reverse; non-trivial = more than 3 grid points; distinct by choice sequence"),
    "C02": dict(
        campaigns=[camp("h_transform", "C02", 8, 40000, 800000)],
        rule="random grid, decomposition, thread count, basis per dimension, lower level, dimension subset and "
             "direction; result compared at every point with a serial reference; non-trivial = more than 3 points "
             "and at least one transformed dimension"),
    "C03": dict(
        campaigns=[camp("h_transform", "C03", 8, 40000, 800000)],
        rule="random grid, decomposition and basis; hat synthesis at random points / integral before and after "
             "dropping details above a random level / details of coarse-grid functions; non-trivial = more than 3 points"),
    "C04": dict(
        campaigns=[camp("h_grid", "C04", 8, 40000, 800000)],
        rule="random grid and decomposition, every index conversion, owner, level, predecessor, boundary flag and "
             "subspace list checked against own arithmetic for all points; grids of up to 2^31 points sampled near "
             "partition boundaries; downsampled decompositions; non-trivial = more than one process"),
    "C05": dict(
        campaigns=[camp("h_grid", "C05", 8, 60000, 1200000)],
        rule="random grid, decomposition, data and 1-24 coordinates (grid points, process boundaries, 0, 1, random) "
             "against a serial multilinear interpolation; non-trivial = more than one grid point"),
    "C06": dict(
        campaigns=[camp("h_grid", "C06", 8, 40000, 800000)],
        rule="random grid, decomposition, data, root and dimension; norms, corners, gather, ghost layer, periodic copy, "
             "plot file against serial results; non-trivial = more than 3 points and more than one process"),
    "C07": dict(
        campaigns=[camp("h_scheme", "C07", 1, 20000, 500000)],
        rule="random lmin, lmax (1-7 dims; equal, unequal, constant dimensions) for classical, adaptive and fault "
             "tolerant schemes; levels, coefficients, down sets and degrees of freedom, in total and per process of a "
             "random decomposition, against enumeration of the level set; non-trivial = more than one grid"),
    "C08": dict(
        campaigns=[camp("h_scheme", "C08", 8, 15000, 300000)],
        rule="random scheme files (with and without group numbers, any key order and layout), arbitrary file contents "
             "up to 400 kB and parameter files, received on communicators of 1-8 ranks in any rank order; "
             "non-trivial = more than one rank and non-empty content"),
    "C09": dict(
        campaigns=[camp("h_scheme", "C09", 1, 60000, 1500000)],
        rule="generated schemes or random lists of grids, 1-16 groups (round robin, by load) and 1-6 systems with "
             "random fractions; every grid exactly once; non-trivial = more than one group or system"),
    "C10": dict(
        campaigns=[camp("h_sparse", "C10", 8, 20000, 400000)],
        rule="random level set, decomposition and family of component grids; random histories of add, extract, zero, "
             "copy, maximum, norm and re-registration on a distributed sparse grid against a map from subspaces to "
             "values; non-trivial = several processes or points and at least one effective operation"),
    "C11": dict(
        campaigns=[camp("h_combi", "C11", 8, 4000, 8000)],
        rule="random scheme (classical, adaptive, arbitrary grids and coefficients), 1-8 groups, process grid and "
             "decomposition, basis per dimension, reduce variant, chunk size, threads, one or two fields, reduced lmax; "
             "1-3 rounds of writing data and combining; every value of every grid, interpolated values, evaluation on a "
             "level and extreme coefficients against a serial model; non-trivial = several grids or processes"),
    "C12": dict(
        campaigns=[camp("h_io", "C12", 8, 6000, 40000)],
        rule="random number of values per rank (including none), value types, buffer sizes, existing files, compression "
             "of random to constant data up to several blocks, whole sparse grids with gaps; write, read, reduce from one "
             "or several files, wrong-size and truncated files; non-trivial = several ranks and different counts"),
    "C13": dict(
        campaigns=[camp("h_serial", "C13", 3, 20000, 400000)],
        rule="random combination parameters, tasks, level vectors, containers and coordinate lists (with extreme and "
             "special floating-point values), sent, received, broadcast or archived between random ranks; every "
             "field compared; non-trivial = several ranks or non-empty content"),
    "C15": dict(
        campaigns=[camp("h_misc", "C15", 1, 20000, 600000), camp("h_managed", "C20", 7, 1500, 5000)],
        rule="random histories of recorded durations and estimates against exact averages; random assignments, "
             "durations and tolerances for the rescheduler; executed rescheduling within managed runs (second "
             "campaign); non-trivial = several tasks and at least one recorded duration"),
    "C16": dict(
        campaigns=[camp("h_system", "C16", 13, 1000, 3500)],
        rule="random numbers of groups and processes per group on 1-13 ranks, with and without manager, "
             "re-initialisation, reduction and output communicator splits; membership of every communicator compared "
             "with the definition; non-trivial = more than one worker"),
    "C17": dict(
        campaigns=[camp("h_multi", "C17", 9, 700, 6000), camp("h_tcp", "C17", 8, 2000, 30000)],
        rule="random scheme divided over 2-3 systems running at the same time on separate groups of ranks, exchanging "
             "by files, or two systems with process managers exchanging through the third level manager over TCP "
             "(second campaign), for 1-3 rounds; every value of every grid against the serial combination of the union; "
             "non-trivial = several systems with at least one grid each"),
    "C18": dict(
        campaigns=[camp("h_misc", "C18", 4, 4000, 60000)],
        rule="random nested timers, attributes and partial writes on 1-4 ranks; the file parsed by an own JSON "
             "parser and compared event by event; non-trivial = at least one event"),
    "C20": dict(
        campaigns=[camp("h_managed", "C20", 7, 4000, 8000)],
        rule="random scheme, layout, load model and sequence of manager operations (run, combine, reschedule, "
             "interpolate, norms, evaluation on a level, extreme coefficients, diagnostics, sparse grid and plot "
             "files, saved sparse grids, renewed groups); task values and returned results against a serial model, each task in one group, "
             "communication in step; non-trivial = several tasks and at least one combination"),
    "C21": dict(
        campaigns=[camp("h_serial", "C21", 3, 12000, 300000)],
        rule="random serial full grids (1-5 dims, boundary flag per dimension, data), evaluation, norms, coordinates, "
             "hierarchization and files against direct definitions; non-trivial = more than 3 points"),
    "C14": dict(
        campaigns=[camp("h_ft", "C14", 1, 60000, 1500000), camp("h_managed", "C14", 7, 1500, 10000)],
        rule="random fault tolerant schemes (1-5 dims, constant dimensions, classical and adaptive) and sets of lost "
             "grids (single, several, whole diagonals, lower diagonals); validity of the new coefficients for every "
             "level of the down set, optimality by enumeration for down sets of up to 18 levels, reported grids; "
             "static and timed fault criteria; managed runs that lose groups, recombine, re-initialize, recompute, combine, "
             "restore the scheme and go on; non-trivial = at least one loss on the two finest diagonals"),
    "C19": dict(
        campaigns=[camp("h_net", "C19", 1, 2500, 40000)],
        rule="random sequences of messages over loopback connections, direct, forwarded or through the third level "
             "manager, each send and receive call limited to a generated number of bytes; connection losses at any "
             "byte; non-trivial = fragmented and more than one byte (streams), partial message (losses), at least "
             "one operation (third level manager)"),
}
PROPS = dict(sorted(PROPS.items()))
