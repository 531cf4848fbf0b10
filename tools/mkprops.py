#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C = "src/cuda/"
prop("P01", "Sub-box and transposed iterators are lawful random-access iterators",
 "An iterator over a (possibly strided, possibly axis-permuted) sub-box of a dense array visits exactly the elements of that sub-box, once each, in row-major order of the requested axis order, and its reported size is their number. Every way of reaching a position (stepping forward or back, jumping by any positive, negative or zero distance, through the end position and back) yields the same iterator: same element, same equality with other positions, and distances that equal the difference of positions.",
 ["histories", "inputs"], "every array shape, sub-box, stride and axis permutation in 1 to 4 dimensions, every reachable position including the end, and every operation history on the iterator",
 "the tests walk one or two hand-picked boxes forward and jump from the beginning; position-by-position histories, backward jumps, jumps from and to the end, and non-unit strides with permuted axes are not reached",
 [C+"matrix_traversal_iterator.hpp", C+"submatrix_iterator.hpp", C+"transpose_iterator.hpp", C+"matrix_utils.hpp"],
 [("multi-index carry and linear-offset arithmetic", C+"matrix_traversal_iterator.hpp:increment/decrement/advance/distance_to"), ("ravel/unravel/stride_dim", C+"matrix_utils.hpp"), ("window and permutation set-up", C+"submatrix_iterator.hpp, "+C+"transpose_iterator.hpp")],
 [("current multi-index", "position of the iterator, including the one-past-the-end encoding")])
prop("P02", "Forward-difference pair iterators visit exactly the valid neighbour pairs",
 "The pair iterator along an axis of a box visits, in memory order, exactly the pairs (element, next element along that axis) for which both lie in the box, as many as its size says, and never pairs elements across the box edge. Every way of reaching a position, the end included (stepping, jumping forward, back or by zero), yields the same iterator, with distances equal to differences of positions.",
 ["histories", "inputs"], "every box shape in 1 to 3 dimensions, every axis, every reachable position and every operation history on the iterator",
 "the tests dereference a few positions reached by single jumps from the beginning; re-based jumps, jumps to and from the end, and backward jumps across row boundaries are not reached",
 [C+"forward_stencil_iterator.hpp", C+"matrix_traversal_iterator.hpp", C+"stencil_impl.hpp"],
 [("roll-over compensation at the end of a row block", C+"forward_stencil_iterator.hpp:increment/decrement/advance"), ("stencil iterator built over a traversal", C+"matrix_traversal_iterator.hpp:stencil")])
prop("P03", "Offset-indexed and coarse-to-fine iterators address the right element",
 "An offset iterator at position n refers to the base element displaced by the n-th offset tuple in the array's own strides. A coarse-to-fine iterator at fine index f refers to the coarse element floor(f / ratio) along its axis, also for negative indices, and both obey the random-access laws for every order of steps and jumps.",
 ["histories", "inputs"], "every ratio, axis, starting fine index (negative included) and array shape; every offset list; every operation history on the iterators",
 "the tests use one offset table and ratio-2 lines starting at few indices; negative start indices not on a coarse boundary, other ratios and stepping back are not enumerated",
 [C+"offset_iterator.hpp", C+"coarse_to_fine_iterator.hpp", C+"matrix_utils.hpp"],
 [("offset displacement", C+"offset_iterator.hpp:dereference"), ("floor division for negative fine indices", C+"coarse_to_fine_iterator.hpp:coarse_index")])
prop("P04", "An array assignment over a domain writes exactly that domain, element by element",
 "Evaluating an assignment over an index domain sets every element of the destination at the domain's index tuples, and nothing else, to the right-hand side evaluated at the same index tuple, whatever the storage order, ghost width or extent of the arrays and whatever the order in which the domain's axes are listed. This holds for scalars, arrays, and arithmetic combinations of them, for strided domains (every stride-th index from the lower bound), for domains taken from the destination itself, and when several assignments share a domain they take effect in order.",
 ["inputs", "programs"], "every domain (position, extent, stride, axis listing order), every storage order and ghost width of source and destination, every arithmetic expression shape, 1 to 3 dimensions",
 "the tests evaluate a handful of expressions on random boxes with fixed storage orders, so most combinations of storage order, domain order, ghost width and stride, and the untouched part of memory, are never compared",
 [C+"md_device_span.hpp", C+"iter_math.hpp", C+"traits.hpp", C+"transpose_iterator.hpp", C+"submatrix_iterator.hpp", C+"md_bounds.hpp"],
 [("lazy assignment", C+"md_device_span.hpp:assign_proxy, with_domain, with_lhs_domain"), ("lazy arithmetic", C+"iter_math.hpp"), ("axis reordering", C+"md_device_span.hpp:call_helper")])
prop("P05", "Shifts, gradients and neighbour pairs follow the named axis",
 "Within an assignment, shifting an array along x, y or z (or two of them) by s reads the element whose index on those axes is larger by s; an upward gradient reads (u(i+1)-u(i))/h and a downward one (u(i)-u(i-1))/h along the named axis; a neighbour pair yields those two values in that order. This does not depend on the storage order of the array or on the order in which the domain's axes are listed.",
 ["inputs", "programs"], "every axis, direction, shift distance, storage order, ghost width and domain listing order in 1 to 3 dimensions",
 "the tests exercise a few gradients on one storage order; the axis-permutation combinations and negative shifts are not enumerated",
 [C+"md_device_span.hpp", C+"forward_stencil_iterator.hpp", C+"traits.hpp", C+"stencil_impl.hpp", C+"iter_math.hpp"],
 [("gradient, shift and neighbour-pair transforms", C+"md_device_span.hpp:stencil_helper, shift_helper, grad_*, shift_*, stencil_*"), ("axis position look-up", C+"traits.hpp:shift_v, map_index_v")])
prop("P06", "Index bounds keep the set of indices their operations describe",
 "Bounds describe the indices lower, lower+stride, ... up to and including the upper one, and their size is the number of those indices (zero when there are none). Growing upward or downward, expanding, shifting and dropping the stride change exactly the ends they name by the given amount, and an assignment over a domain that has no indices writes nothing.",
 ["histories", "inputs"], "every bounds value, every sequence of bound operations, every stride, and every (also multiply) empty domain",
 "the tests build bounds with small positive extents and stride dividing the extent; operation sequences, negative amounts, non-dividing strides and empty domains are not reached",
 [C+"md_bounds.hpp", C+"md_device_span.hpp", C+"submatrix_iterator.hpp"],
 [("bound arithmetic and size", C+"md_bounds.hpp"), ("domain evaluation", C+"md_device_span.hpp:assign_proxy, with_domain")])
prop("P07", "Stencil-array assignments evaluate each entry from the right operands, in order",
 "Assigning entries of a per-cell coefficient array over a domain sets, at each cell of the domain, the named entry to the right-hand side, where entries on the right are those of the same cell, other arrays are read at the same cell, and operands keep the order in which they are written. Assignments listed together take effect in order at every cell, a pair assignment sets the two entries to the lower and upper value of the pair, accumulating into another array subtracts the expression from its element, and all other entries and cells stay untouched.",
 ["inputs", "programs"], "every expression shape supported, every entry, every domain, storage order and ghost width, 1 to 3 dimensions",
 "the kernels use only a few expression shapes and the tests see those through kernels; operand order, chained entry updates and untouched entries are not enumerated",
 [C+"stencil_proxy.hpp", C+"md_device_span.hpp", C+"tuple_utils.hpp", C+"stencil_impl.hpp", C+"traits.hpp"],
 [("operand tuples of proxy expressions", C+"stencil_proxy.hpp:get_iterators, maybe_invoke_with"), ("layered invocation", C+"stencil_proxy.hpp:tp_invoke, tp_layered_invoke")])
prop("P08", "Windows, offset dot products and coarse-to-fine views pick the right elements",
 "The window of a coefficient array at a cell exposes that cell's entries 0, 1, 2, ... and no others; the dot product of a coefficient array with an array under an offset table is, at each cell, the sum over the table of coefficient entry times the array element displaced by the table's tuple (x, y, z in that order). A fine-line view of a coarse array yields, at fine index f, the coarse element at floor(f / ratio) on the line, the other indices being those given.",
 ["inputs", "configurations"], "every offset table up to a length, every ratio, axis, index range (negative included), storage order and ghost width",
 "the tests use one table and ratio 2 with random boxes",
 [C+"md_device_span.hpp", C+"offset_iterator.hpp", C+"coarse_to_fine_iterator.hpp", C+"window_iterator.hpp", C+"traits.hpp"],
 [("offset dot product", C+"md_device_span.hpp:dot_impl, dot_helper, offset_helper"), ("fine view", C+"md_device_span.hpp:fine, coarse_to_fine"), ("window", C+"md_device_span.hpp:window")])
prop("P10", "Face fluxes are coefficient times backward difference on every face",
 "The flux kernels set, on every face of the box including both boundary faces, the flux to b*(u(upper cell)-u(lower cell))/h of that face's direction (b = 1 in the Poisson form), for every box, ghost width and grid spacing. The thrust kernels, in single and double precision, and the Fortran kernels do the same.",
 ["inputs", "configurations"], "every box position and shape (one-cell, negative, non-square, empty), ghost width, spacing and data, 1 to 3 dimensions, both precisions and both implementations",
 "the tests compare the two implementations on random positive boxes in double precision with a loose tolerance and never state the formula",
 [C+"cdf_1d_cuda.cpp", C+"cdf_2d_cuda.cpp", C+"cdf_3d_cuda.cpp", "m4/celldiffusionflux1d.m4", "m4/celldiffusionflux2d.m4", "m4/celldiffusionflux3d.m4"],
 [("thrust flux kernels", C+"cdf_*_cuda.cpp"), ("Fortran flux kernels", "m4/celldiffusionflux*.m4")])
prop("P11", "Diffusion residuals and applications combine divergence, reaction and source",
 "Over the box, the operator application is alpha*a*u - beta*div(flux) (a = 1 in the second variant, no reaction term in the Poisson form) and the residual is source minus that application, with div(flux) the sum over directions of the difference of the two opposite face fluxes over the spacing. This holds for every combination of ghost widths of the arrays, cells outside the box are left untouched, and the thrust kernels (single and double precision) and the Fortran kernels agree.",
 ["inputs", "configurations"], "every box, independent ghost widths of each array, alpha and beta (zero, negative), spacing and data, 1 to 3 dimensions, both precisions and implementations",
 "the tests compare implementations on random positive data with equal-sized ghosts and few boxes",
 [C+"cd_apply_1d_cuda.cpp", C+"cd_apply_2d_cuda.cpp", C+"cd_apply_3d_cuda.cpp", "m4/celldiffusionapply1d.m4", "m4/celldiffusionapply2d.m4", "m4/celldiffusionapply3d.m4"],
 [("thrust apply kernels", C+"cd_apply_*_cuda.cpp"), ("Fortran apply kernels", "m4/celldiffusionapply*.m4")])
prop("P12", "Assembled stencil coefficients are the diffusion operator's",
 "Off-diagonal assembly sets, in every cell of the box, the entry of each neighbour to -beta*b/h^2 with b the coefficient on the shared face (1 in the Poisson form), and diagonal assembly sets the centre entry to minus the sum of the off-diagonal entries plus alpha*a (alpha, or nothing, in the other forms). Entries of ghost cells and all other memory are untouched, coefficient arrays may live on a larger box than the stencil, and both implementations and precisions agree.",
 ["inputs", "configurations"], "every box and enclosing coefficient box, stencil ghost width, alpha, beta, spacing and data, 1 to 3 dimensions",
 "the tests compare implementations on random boxes in double precision",
 [C+"cd_stencil_1d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
 [("thrust assembly", C+"cd_stencil_*_cuda.cpp: offdiag, *diag"), ("Fortran assembly", "m4/celldiffusionstencilcoeffs*.m4")])
prop("P13", "Boundary adjustments of a stencil compose correctly over any sequence",
 "Starting from an assembled stencil, any sequence of boundary and coarse-fine adjustments (diagonal, off-diagonal, re-adjustment, right-hand-side elimination; any direction, side, boundary segment, condition type, extrapolation or interpolation order and refinement ratio) changes exactly the entries of the cells along the segment named by each step, by the factors of the discretisation, and leaves everything else untouched. After every step the thrust kernels in both precisions, the Fortran kernels and the discretisation formulas agree.",
 ["histories", "configurations", "inputs"], "every sequence of adjustment operations up to a length, with every parameter combination, on small boxes of every shape, 1 to 3 dimensions",
 "each test applies one adjustment to fresh random data; sequences (for instance an adjustment on two sides that meet in a corner cell, or re-adjusting after adjusting) and unusual parameter combinations are not reached",
 [C+"cd_stencil_1d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
 [("adjustments in thrust", C+"cd_stencil_*_cuda.cpp: adj_*, readj_*"), ("adjustments in Fortran", "m4/celldiffusionstencilcoeffs*.m4: adj*, readj*")],
 [("stencil array", "coefficients of every cell after the steps so far")])
prop("P14", "Ghost-cell boundary corrections extrapolate what the condition prescribes",
 "Setting boundary values fills exactly the ghost cells of the named boundary segment (face, edge, corner or node, in one to three dimensions) with the value the condition type and extrapolation order prescribe from the interior cells next to them: odd reflection for Dirichlet, copying for Neumann, the Robin formula with the face coefficient, and the corner, edge and homogeneous extrapolation formulas. Over any sequence of such calls every other cell stays untouched, and the thrust kernels in both precisions and the Fortran kernels agree with these formulas.",
 ["histories", "configurations", "inputs"], "every sequence of calls up to a length, with every face, segment, type, condition, order, coefficient ghost width and box shape within a bound",
 "each test makes one call on fresh random data with positive coefficients; sequences in which a later call reads ghost cells an earlier one wrote, and segments touching the box ends, are not reached",
 [C+"cd_correct_bc_1d_cuda.cpp", C+"cd_correct_bc_2d_cuda.cpp", C+"cd_correct_bc_3d_cuda.cpp", "m4/cellsetcorrectionbc1d.m4", "m4/cellsetcorrectionbc2d.m4", "m4/cellsetcorrectionbc3d.m4"],
 [("thrust boundary correction", C+"cd_correct_bc_*_cuda.cpp"), ("Fortran boundary correction", "m4/cellsetcorrectionbc*.m4")])
prop("P15", "Coarse-to-fine ghost filling copies the covering coarse cell",
 "Filling a line of fine cells along an axis sets each of them to the coarse cell whose index along that axis is floor(fine index / ratio), at the coarse line's other two indices, and filling a corner copies the one named coarse cell to the one named fine cell; nothing else changes. Linear extrapolation of faces, edges and nodes fills exactly the named ghost cells from their interior neighbours.",
 ["inputs", "configurations", "histories"], "every axis, ratio, line position and length (negative and unaligned), box and ghost width, and sequences of calls",
 "the tests use positive boxes and a single ratio",
 [C+"coarse_to_fine_cuda.cpp", C+"coarse_to_fine_iterator.hpp", "m4/copycoarsetofine.m4"],
 [("thrust copy", C+"coarse_to_fine_cuda.cpp"), ("Fortran copy and extrapolation", "m4/copycoarsetofine.m4")])
prop("P16", "Node-centred legacy kernels follow the same operator formulas",
 "The node-centred Fortran kernels compute the same fluxes and stencil coefficients and adjustments as their cell-centred counterparts, on arrays without stencil ghosts. Their application kernels compute b*f + a*(alpha*acoef*u - beta*div(flux)) over the box (acoef = 1, or no reaction term, in the other forms).",
 ["inputs", "configurations", "histories"], "every box, ghost width, direction, side, type, order, coefficient and data, 1 to 3 dimensions, and sequences of adjustments up to a length",
 "no test calls the node-centred kernels at all",
 ["m4/nodediffusionflux1d.m4", "m4/nodediffusionflux2d.m4", "m4/nodediffusionflux3d.m4", "m4/nodediffusionapply1d.m4", "m4/nodediffusionapply2d.m4", "m4/nodediffusionapply3d.m4", "m4/nodediffusionstencilcoeffs1d.m4", "m4/nodediffusionstencilcoeffs2d.m4", "m4/nodediffusionstencilcoeffs3d.m4"],
 [("node kernels", "m4/nodediffusion*.m4")])
prop("P17", "Relaxation sweeps update the right cells, in order, and keep the solution fixed",
 "A Jacobi sweep adds the damped residual over the diagonal computed from the old values everywhere, a Gauss-Seidel sweep replaces every value in lexicographic order using the newest neighbours, and a red-black sweep does so on exactly the cells of the given colour, also at negative indices; the specialised fixed-stencil sweeps equal the general ones, and block sweeps solve the block's equations with the rest frozen. Over every sequence of sweeps cells outside the box are never written and the exact solution stays fixed.",
 ["histories", "inputs", "configurations"], "every sequence of sweeps up to a length, every box position (negative included) and shape, independent extents of the stencil, right-hand-side and unknown arrays, every colour and offset table, 1 to 3 dimensions",
 "no test calls the relaxation kernels",
 ["m4/cellsmooth1d.m4", "m4/cellsmooth2d.m4", "m4/cellsmooth3d.m4", "m4/cellblocksmooth1d.m4", "m4/cellblocksmooth2d.m4", "m4/cellblocksmooth3d.m4"],
 [("point sweeps", "m4/cellsmooth*.m4"), ("block sweeps", "m4/cellblocksmooth*.m4")],
 [("unknown array", "iterate after the sweeps so far")])
prop("P18", "Stencil application and right-hand-side elimination use every entry once",
 "Applying a stencil at a point or over a patch gives b*f + a*(sum over the offset table of entry times displaced u). Eliminating the couplings across a coarse-fine side subtracts, in exactly the cells of the segment, exactly the entries that reach across that side times the value they reach; the patch-wide adjustment adds every listed coupling in every cell of the patch.",
 ["inputs", "configurations"], "every offset table, box (non-square, negative), ghost width, direction, side, segment and coefficients, 1 to 3 dimensions",
 "no test calls these kernels",
 ["m4/applystencil1d.m4", "m4/applystencil2d.m4", "m4/applystencil3d.m4", "m4/celladjustrhs1d.m4", "m4/celladjustrhs2d.m4", "m4/celladjustrhs3d.m4"],
 [("stencil application", "m4/applystencil*.m4"), ("right-hand-side elimination", "m4/celladjustrhs*.m4")])
prop("P19", "Parallel kernels are race free: every schedule gives the same result",
 "For every number of threads and every order in which the threads run, each parallel kernel leaves bitwise the same memory. No two parallel iterations of a kernel touch the same memory location when one of them writes it.",
 ["schedules", "inputs", "configurations"], "every thread count and interleaving of the parallel iterations of every thrust kernel call, on small boxes with every mode of the kernel",
 "the tests run under whatever schedule the machine gives, on independent random data, so an order dependence between neighbouring cells shows up rarely or never",
 [C+"md_device_span.hpp", C+"stencil_proxy.hpp", C+"cd_correct_bc_1d_cuda.cpp", C+"cd_correct_bc_2d_cuda.cpp", C+"cd_correct_bc_3d_cuda.cpp", C+"cd_stencil_1d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp", C+"cdf_1d_cuda.cpp", C+"cdf_2d_cuda.cpp", C+"cdf_3d_cuda.cpp", C+"cd_apply_1d_cuda.cpp", C+"cd_apply_2d_cuda.cpp", C+"cd_apply_3d_cuda.cpp", C+"coarse_to_fine_cuda.cpp"],
 [("parallel copies, fills and for-each over lazy iterators", C+"md_device_span.hpp:assign_proxy, with_domain")])
prop("P20", "Kernels only touch the memory the call describes",
 "For every call with arguments inside their documented ranges, each kernel reads only elements of the arrays passed to it and writes only the elements of its result region; input arrays and scalars are never written. Calls on empty boxes or segments write nothing.",
 ["inputs", "configurations"], "every kernel (thrust and Fortran), every box (one-cell, negative, non-square, empty), ghost width and mode within the bounds",
 "the tests compare result values only; out-of-range reads or writes that do not change the compared values go unnoticed",
 [C+"md_device_span.hpp", C+"submatrix_iterator.hpp", C+"forward_stencil_iterator.hpp", C+"cd_correct_bc_2d_cuda.cpp", C+"cd_correct_bc_3d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp", "m4/cellsmooth2d.m4", "m4/cellsetcorrectionbc3d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
 [("address computation of every kernel", C+"*_cuda.cpp, m4/*.m4")])
prop("P21", "The array container keeps host and device copies coherent over every history",
 "After every sequence of kernel writes through the device pointer, host reads, conversions, fills, offset-table edits and copies, a host read returns what the kernels last wrote (or the last fill or edit), and a kernel sees the same; setting one offset row changes exactly that row, whatever happened before. A copied container is independent of the original, and its sizes and element numbering are those of row-major storage over the (ghost-expanded) bounds with the window dimension never expanded.",
 ["histories", "inputs"], "every history of container operations, not only the fill-then-call-then-read order",
 "the tests use one order of operations per container: fill, one kernel, one read",
 ["src/md_device_vector.hpp", C+"md_bounds.hpp", C+"matrix_utils.hpp"],
 [("coherence of host and device memory", "src/md_device_vector.hpp:host, operator std::vector, data, set_offset, fill_random"), ("layout", "src/md_device_vector.hpp:index, make_md_vec, make_offset_vec")],
 [("host copy", "offset edits and fills since the last synchronisation"), ("device copy", "kernel writes"), ("sync flag", "whether the device may be ahead")])
prop("P22", "Fluxes, assembled stencil and stencil application are one operator",
 "For every box, coefficients and data, applying the assembled stencil to u gives the same result as applying the operator to the fluxes of u, in every form (diffusion variants and Poisson) and dimension; the discrete divergence sums to the net boundary flux.",
 ["histories", "inputs", "configurations"], "every pipeline of assembly, flux, application, boundary filling and elimination steps over boxes, boundary types and orders within the bounds",
 "each kernel is tested alone against its twin, so a consistent change to both sides, or a mismatch between kernels that must fit together, is invisible",
 [C+"cd_stencil_1d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp", C+"cd_apply_1d_cuda.cpp", C+"cd_apply_2d_cuda.cpp", C+"cd_apply_3d_cuda.cpp", C+"cdf_1d_cuda.cpp", C+"cdf_2d_cuda.cpp", C+"cdf_3d_cuda.cpp", "m4/applystencil2d.m4"],
 [("operator pipeline", C+"cdf_*_cuda.cpp -> "+C+"cd_apply_*_cuda.cpp; "+C+"cd_stencil_*_cuda.cpp -> m4/applystencil*.m4")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    import sys
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
    print(len(P), "properties")
