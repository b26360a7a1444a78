"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DA = "pylops_mpi/DistributedArray.py"
LO = "pylops_mpi/LinearOperator.py"
SLO = "pylops_mpi/StackedLinearOperator.py"
T3 = "the tests run a handful of shapes on 3 MPI processes with fixed (mostly all-ones or random) data"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), bounds=""):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=None), _bounds=bounds))


prop("C01", "Scattering a global array and gathering it back is the identity",
     "Distributing a global array over any number of processes along any axis, with default or explicit local "
     "sizes, and gathering it again returns the same array with the same shape. Without explicit sizes the axis is cut "
     "into consecutive pieces in rank order whose lengths differ by at most one and add up to the global length; "
     "changing the distribution (axis or sizes) afterwards keeps the global contents.",
     ["inputs", "configurations"],
     "Every array content; the default split for every length of the axis; every number of processes, global shape (also axes shorter than the number of processes, "
     "length-0 pieces), axis, explicit split and pair of old/new distributions within the bounds.",
     T3 + "; uneven splits, empty pieces and 3-dimensional redistribution are hardly reached.",
     [DA], [("local_split", DA), ("to_dist / asarray / redistribute", DA)],
     ["asarray", "local_shapes", "local_array on every rank"])
prop("C02", "Element-wise arithmetic of distributed arrays equals NumPy",
     "Sum, difference, product (element-wise and by a scalar), negation, in-place variants, conjugation, copy and "
     "item assignment of distributed arrays give, on every process, exactly the matching piece of what NumPy computes "
     "on the global arrays. The result keeps the distribution, axis, local sizes, mask and communicator of its "
     "operands, and operands of non-in-place operations are left unmodified.",
     ["inputs", "configurations"], "Every real and complex entry value and scalar, every layout and mask within the bounds.",
     T3 + "; sampled data cannot show the identity for every value, and metadata of results is only partly asserted.",
     [DA], [("add/iadd/multiply/__neg__/conj/copy/__setitem__", DA)], ["local_array", "metadata attributes"])
prop("C03", "Dot products and norms equal the global ones on every process",
     "The dot product (plain or conjugating) and the norm of any order (0, 1, 2, other positive or fractional orders, "
     "plus and minus infinity) of distributed arrays equal NumPy's result on the global arrays, along the "
     "requested axis or of the flattened array. Every process obtains the same value, also when some processes own nothing.",
     ["inputs", "configurations"], "Every real and complex content (negative entries included), order, axis, layout and number of processes within the bounds.",
     T3 + "; only a few orders and positive data were sampled, which is why three wrong cases survived.",
     [DA], [("dot", DA), ("_compute_vector_norm / norm", DA)], ["value returned on every rank"])
prop("C04", "Masked reductions stay inside the groups of processes of the mask",
     "With a mask, the dot product and the norm seen by a process combine exactly the pieces of the processes that carry the "
     "same mask value, and nothing of the others. Arrays derived from a masked array (sums, copies, zero arrays and "
     "the like) carry the same mask.",
     ["inputs", "configurations"], "Every content, every mask (partition of the ranks into groups) and layout within the bounds.",
     T3 + "; one two-group mask over evenly divided ranks is used.",
     [DA], [("subcomm_split", DA), ("_allreduce_subcomm", DA), ("zeros_like", DA)], ["dot/norm on every rank", "mask"])
prop("C05", "Flattening keeps the global order of each process' data",
     "Flattening a distributed array gives a one-dimensional distributed array whose piece on every process is that "
     "process' piece flattened in row- or column-major order as requested, with matching local sizes, distribution, "
     "communicator and mask. The source is unchanged.",
     ["inputs", "configurations"], "Every content, shape, axis, order, distribution and number of processes within the bounds.",
     T3 + "; a few 2-d shapes.", [DA], [("ravel", DA)], ["local_array", "local_shapes", "base_comm"])
prop("C06", "Ghost cells are exactly the neighbouring pieces' edge entries",
     "Adding front and/or back ghost cells returns, on every process, its own piece extended with the last entries of "
     "the previous process and the first entries of the next one along the distributed axis, with nothing added at the "
     "two ends of the global array. A width larger than the neighbour owns is refused with an error, never filled with other data; "
     "the array itself is unchanged.",
     ["inputs", "configurations", "schedules"], "Every content, width pair, axis, split and number of processes within the bounds; every message schedule.",
     T3 + "; widths 1-2 on evenly split arrays.", [DA], [("add_ghost_cells", DA)], ["returned array on every rank"])
prop("C07", "A broadcast array holds rank 0's value on every process",
     "Whatever different values the processes assign to (part of) a strictly broadcast array, afterwards all of them "
     "hold what rank 0 assigned; arithmetic, dot and norm of broadcast arrays are the same everywhere and count each "
     "entry once. Each process keeps its own value only in the variant that explicitly skips the synchronisation.",
     ["inputs", "configurations"], "Every per-rank value, index range, communicator size within the bounds.",
     T3 + "; all ranks assign the same values in the tests.",
     [DA], [("__setitem__ / bcast", DA), ("dot/norm for BROADCAST", DA)], ["local_array on every rank"])
prop("C08", "Stacked distributed arrays behave as the concatenation of their parts",
     "Arithmetic on stacked arrays acts part by part, and the dot product and norm of a stacked array equal those of the "
     "concatenation of the parts' global arrays, on every process. Stacks may mix distributed "
     "and broadcast parts; gathering returns the concatenation; operands are not modified.",
     ["inputs", "configurations"], "Every content and scalar, stack of up to 3 parts (also of different types), norm orders and layouts within the bounds.",
     T3 + "; one or two stacks with random data.", [DA], [("StackedDistributedArray", DA)], ["asarray, dot, norm, local arrays"])
prop("C09", "The algebra of distributed operators is the algebra of their matrices",
     "Sums, differences, scalar multiples (real and complex), products, powers, transposes, adjoints, conjugates and "
     "wrapped serial operators, nested in any way, apply forward and adjoint exactly the matrix that the same algebra of "
     "the constituents' dense matrices gives. Shapes combine accordingly and incompatible shapes are refused.",
     ["inputs", "programs", "configurations"], "Every operator expression of the listed depth over block-diagonal leaves with symbolic matrices, every model/data vector and scalar, splits and ranks within the bounds.",
     T3 + "; fixed one-step expressions.", [LO, "pylops_mpi/basicoperators/BlockDiag.py"],
     [("_ScaledLinearOperator, _SumLinearOperator, _ProductLinearOperator, _PowerLinearOperator, _TransposedLinearOperator, _ConjLinearOperator, asmpilinearoperator", LO)],
     ["matvec/rmatvec results", "shape"])
prop("C10", "Stacked operators and their algebra act as block matrices",
     "Stacked block-diagonal and stacked vertical operators, alone or combined by sum, difference, scaling, product, power, "
     "adjoint, transposition and conjugation, apply forward and adjoint exactly the block matrix the same algebra gives "
     "on the concatenated parts. The result has the parts, layouts and shapes of that block structure.",
     ["inputs", "programs", "configurations"], "Every leaf matrix, vector and scalar; expressions up to two operations; ranks and splits within the bounds.",
     T3 + "; only a few stacked products are exercised.",
     [SLO, "pylops_mpi/basicoperators/BlockDiag.py", "pylops_mpi/basicoperators/VStack.py"],
     [("MPIStackedLinearOperator and its wrappers", SLO), ("MPIStackedBlockDiag", "pylops_mpi/basicoperators/BlockDiag.py"), ("MPIStackedVStack", "pylops_mpi/basicoperators/VStack.py")],
     ["matvec/rmatvec results"])
prop("C11", "Block operators equal the serial block-diagonal, vertical and horizontal stacks",
     "A block-diagonal, vertically stacked or horizontally stacked operator built from any (also different) number and "
     "shapes of serial operators per process applies, forward and adjoint, the block matrix made of all processes' blocks in "
     "rank order. This holds with and without a mask, in which case blocks only sum within their group of processes, and on any "
     "communicator: processes outside of it are not involved.",
     ["inputs", "configurations"], "Every block content and vector, block shapes, numbers of blocks per rank, masks, rank numbers and groups of processes within the bounds.",
     T3 + "; one block per rank, all of the same shape.",
     ["pylops_mpi/basicoperators/BlockDiag.py", "pylops_mpi/basicoperators/VStack.py", "pylops_mpi/basicoperators/HStack.py"],
     [("MPIBlockDiag._matvec/_rmatvec", "pylops_mpi/basicoperators/BlockDiag.py"), ("MPIVStack._matvec/_rmatvec", "pylops_mpi/basicoperators/VStack.py"), ("MPIHStack", "pylops_mpi/basicoperators/HStack.py")],
     ["matvec/rmatvec results on every rank"])
prop("C12", "Input in another layout is moved to the operator's layout or refused",
     "An operator given a distributed vector of the right global size cut differently over the processes from what it "
     "needs either computes exactly what it computes for the well-cut vector, or reports an error: it never computes with misplaced "
     "data. It must succeed whenever every process finds the cells it misses on its direct neighbours.",
     ["inputs", "configurations", "schedules"], "Every content and pair of splits (given, needed) of the global vector over the processes within the bounds; every message schedule.",
     T3 + "; two or three fixed reshapes.",
     ["pylops_mpi/utils/decorators.py", DA], [("reshaped", "pylops_mpi/utils/decorators.py"), ("add_ghost_cells", DA)], ["matvec/rmatvec results on every rank"])
prop("C13", "The distributed first derivative equals the serial one",
     "The distributed first derivative applies, forward and adjoint, exactly the matrix of the serial first derivative along "
     "the first axis of the global grid, for forward, backward and centered (order 3 or 5) stencils, any sampling step and "
     "with or without edge treatment. The result does not depend on the number of processes or on how the grid is cut.",
     ["inputs", "configurations"], "Every content and sampling step; grids, splits, kinds, edge/order options and ranks within the bounds; grids at least as long as the edge stencil.",
     T3 + "; grids far larger than the stencil with even cuts, so boundaries close to process edges are not met.",
     ["pylops_mpi/basicoperators/FirstDerivative.py"], [("MPIFirstDerivative stencils and their adjoints", "pylops_mpi/basicoperators/FirstDerivative.py")], ["matvec/rmatvec results"])
prop("C14", "The distributed second derivative equals the serial one",
     "The distributed second derivative applies, forward and adjoint, exactly the matrix of the serial second derivative "
     "along the first axis of the global grid, for forward, backward and centered stencils, any sampling step and with "
     "or without edge treatment. The result does not depend on the number of processes or on how the grid is cut.",
     ["inputs", "configurations"], "Every content and sampling step; grids (at least three points with edge), splits, kinds, ranks within the bounds.",
     T3 + "; as for the first derivative.",
     ["pylops_mpi/basicoperators/SecondDerivative.py"], [("MPISecondDerivative stencils and their adjoints", "pylops_mpi/basicoperators/SecondDerivative.py")], ["matvec/rmatvec results"])
prop("C15", "Distributed Laplacian and gradient equal the serial ones",
     "The distributed Laplacian is the weighted sum of the serial second derivatives along the requested axes, "
     "and the distributed gradient stacks the serial first derivatives along every axis, forward and adjoint. They "
     "agree with the serial operators for every weight, sampling, kind and edge choice, number of processes and cut of the grid.",
     ["inputs", "configurations"], "Every content, weight and sampling; 2-d and 3-d grids, axes, kinds, splits and ranks within the bounds.",
     T3 + "; a few grids with unit-like weights.",
     ["pylops_mpi/basicoperators/Laplacian.py", "pylops_mpi/basicoperators/Gradient.py"],
     [("MPILaplacian", "pylops_mpi/basicoperators/Laplacian.py"), ("MPIGradient", "pylops_mpi/basicoperators/Gradient.py")], ["matvec/rmatvec results"])
prop("C16", "Every operator's adjoint is its exact conjugate transpose",
     "For every distributed operator, built-in or composed, the inner product of (operator applied to u) with v equals that of u "
     "with (adjoint applied to v), for all u and v; nothing relies on the two agreeing only for some vectors. "
     "The adjoint of the adjoint is the operator.",
     ["inputs", "programs", "configurations"], "All u and v (both symbolic), all operators and compositions listed, splits and ranks within the bounds.",
     "the dot test of the suite draws a few random vectors and accepts within a tolerance.",
     [LO, "pylops_mpi/basicoperators", "pylops_mpi/signalprocessing/Fredholm1.py", "pylops_mpi/waveeqprocessing/MDC.py"],
     [("_rmatvec of every operator", "pylops_mpi")], ["dot(Op u, v) - dot(u, Op^H v)"])
prop("C17", "The distributed Fredholm operator equals the serial batched product",
     "The distributed Fredholm integral operator multiplies slice by slice the kernel slices, wherever they are stored, with the "
     "model slices, forward and adjoint, equal to the serial operator on the concatenated kernel, and leaves the same complete result on every "
     "process. This holds for any number of slices per process, any slice sizes (1 included), with the adjoint kernel saved or not and "
     "with matrix-product or element-wise evaluation.",
     ["inputs", "configurations"], "Every kernel and vector content (complex included), slice counts and sizes, options and ranks within the bounds.",
     T3 + "; three even slabs.", ["pylops_mpi/signalprocessing/Fredholm1.py"], [("MPIFredholm1", "pylops_mpi/signalprocessing/Fredholm1.py")], ["matvec/rmatvec on every rank"])
prop("C18", "Distributed multi-dimensional convolution equals the serial one",
     "The distributed multi-dimensional convolution operator applies the same matrix as its serial counterpart on the gathered "
     "kernel: transform in time, multiplication per frequency, inverse transform, forward and adjoint. This includes one- or two-sided time axes, "
     "conjugated kernels and the scaling by the sampling steps.",
     ["inputs", "configurations"], "Every kernel and wavefield content; small grids, options and ranks within the bounds; up to a floating-point tolerance for the transform's coefficients.",
     T3 + "; one configuration.", ["pylops_mpi/waveeqprocessing/MDC.py"], [("_MDC / MPIMDC", "pylops_mpi/waveeqprocessing/MDC.py")], ["matvec/rmatvec"])
prop("C19", "CG iterates exactly as conjugate gradients on the global system",
     "Every iterate, residual and cost the distributed CG solver produces equals that of conjugate gradients on the dense global system, "
     "for distributed and stacked vectors, zero or nonzero starting guess, and it stops exactly when the residual falls below the tolerance "
     "or the iteration limit is reached. Running it step by step, in several batches or at once gives the same, the callback sees every iterate, and all "
     "processes agree.",
     ["inputs", "configurations", "histories"], "Every system matrix, right-hand side and guess (symbolic, residuals not exactly zero before the stop); small systems, up to the listed number of iterations, tolerances symbolic.",
     T3 + "; final solutions within a loose tolerance after many iterations hide errors in single steps.",
     ["pylops_mpi/optimization/cls_basic.py", "pylops_mpi/optimization/basic.py"], [("CG.setup/step/run/finalize", "pylops_mpi/optimization/cls_basic.py"), ("cg", "pylops_mpi/optimization/basic.py")], ["iterates through callback, cost, returned values"])
prop("C20", "CGLS iterates exactly as damped least squares on the global system",
     "Every iterate and cost of the distributed CGLS solver equals that of CGLS on the dense global system with the "
     "given damping, for any starting guess, rectangular systems and stacked vectors, and it stops by tolerance or iteration limit as specified. The returned "
     "residual norms, stop reason and iteration count describe the returned solution, however the steps were batched.",
     ["inputs", "configurations", "histories"], "Every matrix, right-hand side, guess and damping (symbolic); small systems, iterations up to the system size.",
     T3 + "; final solutions only, so wrong damping with a nonzero guess and wrong reported norms went unnoticed.",
     ["pylops_mpi/optimization/cls_basic.py", "pylops_mpi/optimization/basic.py"], [("CGLS.setup/step/run/finalize", "pylops_mpi/optimization/cls_basic.py"), ("cgls", "pylops_mpi/optimization/basic.py")], ["iterates through callback, cost, returned values"])
prop("C21", "The dot test accepts exactly adjoint pairs within the tolerance",
     "The dot test succeeds when the two inner products agree within the stated tolerance and fails when they do not, "
     "for the vectors passed, on every process alike. It raises instead of returning False if asked to, and reports vectors whose sizes do not "
     "match the operator.",
     ["inputs", "configurations"], "Every pair of (not necessarily adjoint) matrices, vectors and tolerances within the bounds.",
     "the suite only runs the dot test on correct adjoint pairs, so a test that always succeeds would pass.",
     ["pylops_mpi/utils/dottest.py"], [("dottest", "pylops_mpi/utils/dottest.py")], ["return value / exception on every rank"])
prop("C22", "No schedule of the processes can deadlock or mismatch communication",
     "Whenever all processes of a communicator call the same operation on valid input, they issue matching collective calls in the same order and every message "
     "sent is received with its size, whatever their relative speeds and whether or not the MPI library buffers messages. So no operation hangs, and "
     "results do not depend on the schedule.",
     ["schedules", "configurations", "inputs"], "Every interleaving of the processes and every choice of buffered or synchronous sending per message, in every operation and layout listed, for all data values on the path.",
     "a test run sees one schedule with eager buffering for small messages; a deadlock shows only under other timing or larger data.",
     [DA, "pylops_mpi/utils/decorators.py", "pylops_mpi/basicoperators", "pylops_mpi/optimization/cls_basic.py"],
     [("all collective and point-to-point calls", "pylops_mpi")], ["trace of MPI calls of each rank"])
prop("C23", "Operations leave their inputs alone, repeat exactly and share no storage",
     "Applying an operator, solving, or calling any non-in-place array operation leaves its inputs unmodified, and doing it again, also after "
     "other calls in between or with other data, gives the same result as the first time. Results do not share storage with inputs: "
     "changing one later never changes the other.",
     ["histories", "inputs"], "Every content and every history of up to the listed number of calls, in every order, on one operator, array or solver object.",
     "each test builds fresh objects and calls each once.",
     [DA, LO, "pylops_mpi/basicoperators", "pylops_mpi/signalprocessing/Fredholm1.py", "pylops_mpi/optimization/cls_basic.py"],
     [("copy / to_dist / operators' _matvec/_rmatvec", "pylops_mpi")], ["inputs and results after a history of calls"])
prop("C24", "Invalid input is reported as an error and leaves everything usable",
     "Operands of mismatching size, layout or mask, invalid axes, partitions, orders or kinds are reported by an error on the processes that can see the mismatch, "
     "never answered with data. The operands are unchanged by the failed call, and operators and arrays "
     "work correctly afterwards.",
     ["inputs", "configurations", "histories"], "Every content and every pair of mismatching sizes, layouts and options within the bounds, followed by a valid call.",
     "a few error cases are tested, each with a single fixed size, and nothing is called after the error.",
     [DA, LO, SLO, "pylops_mpi/basicoperators"], [("argument checks", DA), ("dot/matvec/rmatvec/_SumLinearOperator/_ProductLinearOperator checks", LO)], ["exceptions on each rank", "state afterwards"])
prop("C25", "No operation silently drops imaginary parts or precision",
     "Results of array and operator operations have the type NumPy's promotion rules give for all operands of all processes, "
     "so that combining real with complex or low with high precision never truncates. The declared type of an operator covers the "
     "types of everything it is built from, on every process alike, and its results have that type for all data whose type it covers "
     "(an operator declared real gives real results: feeding it complex data is outside, as in PyLops; an in-place operation keeps the "
     "type of its left operand, as in NumPy).",
     ["inputs", "configurations"], "Every complex content, every pair of the types float32, float64, complex64, complex128 on operands and on different processes.",
     "almost all tests pair operands of one type, equal on all ranks.",
     [DA, LO, "pylops_mpi/basicoperators"], [("get_dtype / np.result_type on construction", "pylops_mpi")], ["dtype and values of results"])
prop("C26", "Plotting helpers draw the distribution and contents they describe",
     "The layout plot marks each cell of the global array with the process that owns it, and the array plots show the gathered "
     "array and each process' own piece respectively. Nothing is changed and all processes get through the call.",
     ["inputs", "configurations"], "Every content; shapes, axes and splits within the bounds.",
     "the plotting helpers have no tests at all.",
     ["pylops_mpi/plotting/plotting.py"], [("plot_distributed_array, plot_local_arrays", "pylops_mpi/plotting/plotting.py")], ["arguments handed to the drawing library"])

TECH = "symbolic execution of the real Python code on simulated ranks; SMT (z3) decides the assertions for all values"
NOTE = ("Holds for every value of the symbolic data on every explored path of the listed configurations (ranks, shapes, "
        "splits, options: see evidence and DESIGN.md for bounds). Trusts the array and MPI models of engine/ "
        "(each run also replays concretely on the real code as a cross-check) and exact real arithmetic in "
        "place of floating point.")
SPECIAL = {
    "C22": ("symbolic execution of the real code per rank; SMT query over all interleavings and buffering choices of the recorded MPI calls",
            "No deadlock or mismatch in any schedule, any choice of buffering, for the listed scenarios. " + NOTE),
    "C18": (TECH + " (linear real arithmetic with explicit tolerance)", NOTE + " Transform coefficients are compared up to a tolerance."),
}
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            p = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(p["title"]) <= 80, p["title"]
            if not p["anchors"]["state"]:
                del p["anchors"]["state"]
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --selftest",
               checks=[], not_applicable=[],
               notes="All checks regenerate the symbolic encoding from /repo's source on every run; no build product of /repo is read.")
    for p in P:
        tech, note = SPECIAL.get(p["id"], (TECH, NOTE))
        man["checks"].append(dict(property=p["id"],
                                  quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % p["id"],
                                  thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
                                  technique=tech, level="model_checking", level_note=note))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
