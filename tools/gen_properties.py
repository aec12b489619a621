#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
S = "src/fibermat/"
P = []


def add(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                     mechanism=[dict(name=a, where=S + b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


add("C01", "A generated fiber set obeys its parameters",
    "For every parameter choice and every random draw, Mat(n, length, width, thickness, size, theta, psi, shear, tensile) has exactly n rows labelled 0..n-1 with exactly the requested l, b, h, G, E; x, y, z spread uniformly over the whole box [-size/2, size/2] with z in increasing order. "
    "Every (u, v, w) is a unit vector whose in-plane angle is uniform in [-theta/2, theta/2] and whose out-of-plane angle is uniform in [-psi/2, psi/2] (so w = 0 when psi = 0). "
    "The global attributes n and size are the requested ones.",
    ["inputs", "configurations"], "all n, all real parameters, all outcomes of the random generator",
    "The tests build a few default Mats with fixed seeds and only look at the check() result; they see none of the other draws or parameter values.",
    ["mat.py"], [("Mat.init", "mat.py")], ["columns and attrs of the Mat object"])

add("C02", "Fiber-set validation accepts exactly the well-formed tables",
    "Mat.check (and Mat(DataFrame)) returns True for every table that has the columns lbhxyzuvwGE, attributes n and size, n rows labelled 0..n-1 in order, positive dimensions and moduli (infinite moduli allowed), x and y within [-size/2, size/2] and unit orientation vectors. "
    "Any single departure is refused with the documented exception: KeyError for columns, AttributeError for attributes, IndexError for row labels, ValueError for data or a wrong row count. "
    "With attribute skip_check true it returns True whatever the data.",
    ["inputs"], "all tables of real values, row labels and attribute sets",
    "The tests corrupt one hand-picked cell at a time on one seeded Mat; boundary values and combinations are not reached.",
    ["mat.py"], [("Mat.check", "mat.py"), ("Mat.__init__", "mat.py")], ["return value or exception of Mat.check / Mat()"])

add("C03", "Seeded generation is reproducible",
    "Mat(n, ..., seed=s) yields the same table for the same arguments whatever the state of the global random generator and whatever was generated before. "
    "Different seeds are free to give different tables, and seed=None draws fresh entropy each time, so two such calls are not forced to agree.",
    ["inputs", "histories"], "all seeds, all prior generator states, all histories of earlier draws",
    "Tests call Mat with one seed and never vary the prior generator state or the seed value (0 in particular).",
    ["mat.py"], [("np.random.seed in Mat.init", "mat.py")], ["equality of two generated tables"])

add("C04", "Connection nodes lie on their fibers at the nearest points",
    "For every connection row (A, B) of a Net, node A is at fiber A's centre plus sA times its direction and node B at fiber B's centre plus sB times its direction, with |sA| < l_A/2 and |sB| < l_B/2 for A != B. "
    "For A != B the segment joining the two nodes (up to a box translation in x and y for periodic networks) is perpendicular to both fibers; for in-plane fibers the two nodes therefore coincide in x and y (modulo the box size when periodic).",
    ["inputs"], "all fiber positions, lengths, in-plane and out-of-plane directions, both periodicities",
    "No test recomputes node coordinates; they only run Net.check on a few seeded networks.",
    ["net.py"], [("normal equations and projection in Net.init", "net.py")], ["rows of Net"])

add("C05", "Non-periodic connectivity is exact",
    "With periodic=False, two distinct non-parallel in-plane fibers are connected if and only if their axes (open segments of the given lengths) cross in projection; parallel fibers whose centres are not on a common line of action are never reported as connected at different places. "
    "When pairs is given, exactly the listed pairs that cross are connected and no other connection appears.",
    ["inputs"], "all fiber positions, lengths and directions; all subsets of pairs",
    "Two seeded networks are compared with nothing; no test knows which fibers should be connected.",
    ["net.py"], [("pairwise search, distance filter, half-length filter in Net.init", "net.py")], ["set of (A, B) rows of Net"])

add("C06", "Periodic connectivity is exact over all periodic images",
    "With periodic=True and fibers no longer than the box, two distinct non-parallel in-plane fibers are connected if and only if fiber A crosses some image of fiber B translated by -size, 0 or +size in x and in y. "
    "Each connected pair appears exactly once, and one crossing image is the one reported.",
    ["inputs"], "all fiber positions in the box, all lengths up to the box size, all directions",
    "The tests check only that a few seeded periodic networks pass Net.check; missing images at corners or sides cannot be noticed.",
    ["net.py"], [("periodic duplication of fibers in Net.init", "net.py")], ["set of (A, B) rows of Net(periodic=True)"])

add("C07", "The network table has its canonical form",
    "Net(mat) contains for every fiber i exactly one row (i, i), with sA = l/2 and sB = -l/2 (its two ends), and at most one row per pair A < B. "
    "Rows are sorted by (A, B), labelled 0..m-1, labels are integers, the table passes Net.check, and attributes n, size are those of the mat and periodic is the requested flag.",
    ["inputs", "configurations"], "all fiber sets, both periodicities, all pairs arguments that include the (i, i) pairs",
    "Only default seeded nets are checked and only by Net.check, which accepts missing end rows.",
    ["net.py"], [("sorting and duplicate removal in Net.init", "net.py")], ["rows, index and attrs of Net"])

add("C08", "Network validation accepts exactly the well-formed tables",
    "Net.check and Stack.check (and the constructors called on a DataFrame) return True for every table with the ten columns, attributes n, size and periodic, rows labelled 0..m-1 in order, integer labels in [0, n-1] with A <= B and no repeated (A, B, sA, sB). "
    "Any single departure is refused with the documented exception: KeyError, AttributeError, IndexError for row labels (repeated ones included), TypeError for non-integer labels, ValueError for the rest; skip_check bypasses the test.",
    ["inputs"], "all tables of labels and reals",
    "Tests corrupt one cell at a time on one seeded net.",
    ["net.py"], [("Net.check", "net.py"), ("Stack.check", "net.py")], ["return value or exception of Net.check / Stack.check"])

add("C09", "Stacked heights are the lowest non-penetrating ones",
    "After Stack(mat, net), every fiber satisfies z >= h/2, and for every connection A < B of net, z_B - z_A >= (h_A + h_B)/2. "
    "The heights are the lowest possible: each fiber rests on the floor or touches some connected fiber A < B below it, i.e. z_B = max(h_B/2, max over its connections of z_A + (h_A + h_B)/2).",
    ["inputs"], "all fiber sets (thicknesses, lengths, widths), all networks",
    "Tests look at two seeded stacks and compare only min/max of z, or nothing.",
    ["net.py"], [("Stack.solve (linear programming)", "net.py"), ("Stack.init", "net.py")], ["mat.z after stacking, zA/zB of the stack"])

add("C10", "Stacking keeps the network and filters by threshold",
    "The rows of Stack(mat, net, threshold=t) are exactly the end rows (i, i) plus those rows of net whose stacked height difference |zB - zA| is at most t (all rows of net when t is None), with the same labels, abscissae and x, y coordinates as in net and with zA, zB equal to the stacked heights. "
    "Nothing of mat other than z is modified.",
    ["inputs", "configurations"], "all fiber sets, all networks (restricted ones included), all thresholds",
    "Tests use one threshold on seeded full networks and only check validity.",
    ["net.py"], [("threshold filter in Stack.init", "net.py")], ["rows of Stack, columns of mat"])

add("C11", "The stacking system encodes exactly non-penetration",
    "Stack.constraint(mat, net) returns C, f, H, h such that for every vector z, C z <= H holds if and only if z_B - z_A >= (h_A + h_B)/2 for every connection A < B of net. "
    "f is the vector of fiber volumes pi/4 l b h and h the vector of thicknesses, in fiber order.",
    ["inputs"], "all fiber sets, networks and trial height vectors",
    "No test reads this system.",
    ["net.py"], [("Stack.constraint", "net.py")], ["C, f, H, h"])

add("C12", "The mesh discretises the network faithfully",
    "Mesh(net) has exactly two nodes per network row, carrying the fiber label, abscissa and coordinates of that row's A and B ends. "
    "Nodes are labelled 0..m-1 and sorted by fiber then abscissa; beam links each node to the next node of the same fiber and the last one back to the first; constraint links the two nodes of a connection to each other and every fiber-end node to itself.",
    ["inputs"], "all well-formed networks (any abscissae, any order of connections along fibers)",
    "Tests run Mesh.check on a seeded mesh; they never compare the mesh with the network it came from.",
    ["mesh.py"], [("Mesh.init", "mesh.py")], ["rows of Mesh"])

add("C13", "Mesh validation accepts exactly the well-formed tables",
    "Mesh.check (and Mesh(DataFrame)) returns True for every table with the seven columns, the three attributes, rows labelled 0..m-1 in order, integer labels in range, nodes sorted by fiber then abscissa, beams cyclic along each fiber, reciprocal constraints and end nodes constrained to themselves. "
    "Any single departure is refused with the documented exception (KeyError, AttributeError, IndexError for row labels, TypeError, ValueError); skip_check bypasses the test.",
    ["inputs"], "all tables of labels and abscissae",
    "Tests corrupt one cell at a time on one seeded mesh.",
    ["mesh.py"], [("Mesh.check", "mesh.py")], ["return value or exception of Mesh.check"])

add("C14", "The stiffness matrix is the assembled Timoshenko model",
    "stiffness(mat, mesh, coupling=c) returns the sum over all beams of the documented 4x4 Timoshenko element matrix (with its own fiber's G, E, b, h and the beam's length, bending/shear coupling terms scaled by c) placed at the displacement and rotation unknowns of the beam's two nodes, including the limit E = infinity. "
    "u, F, du, dF are zero vectors of matching size.",
    ["inputs"], "all positive G, E (and infinite E), b, h, beam lengths, couplings in [0, 1], meshes",
    "A docstring example prints K for one single-beam mesh at three parameter choices; multi-beam, multi-fiber assembly and other values are never compared.",
    ["model.py"], [("stiffness", "model.py")], ["K, u, F, du, dF"])

add("C15", "The stiffness matrix is symmetric, positive and translation free",
    "For every valid mat and mesh with finite moduli and 0 <= coupling <= 1, K is symmetric and u.K.u >= 0 for every vector u. "
    "A rigid vertical translation of any one fiber costs no energy (K times it is zero), and no beam couples nodes of different fibers.",
    ["inputs"], "all displacement vectors, all positive parameters, all meshes",
    "No test evaluates the quadratic form.",
    ["model.py"], [("stiffness", "model.py")], ["K"])

add("C16", "Beam lengths are rescaled monotonically into [lmin, lmax]",
    "With lmin and/or lmax given (0 < lmin <= lmax), the stiffness matrix is the one obtained from rescaled beam lengths that all lie within [lmin, lmax], keep the order of the true lengths, and depend on the true length only. "
    "Without lmin and lmax true lengths are used unchanged; a beam whose true length equals the extreme of the (enlarged) range gets exactly the bound.",
    ["inputs", "configurations"], "all beam lengths, lmin, lmax",
    "No test passes lmin or lmax.",
    ["model.py"], [("interp1d rescaling in stiffness", "model.py")], ["K with lmin/lmax"])

add("C17", "Contact constraints are exactly geometric non-penetration",
    "constraint(mat, mesh) returns C, H such that for every displacement vector u, C u <= H holds if and only if after displacement every constrained node stays above the floor by half its fiber's thickness, below the top plate Z by half its thickness, and each connected pair keeps z_B - z_A >= (h_A + h_B)/2; Z is the highest top surface of the mesh. "
    "Fiber-end nodes carry the floor and plate rows but no pair condition (bound +inf), rotations are unconstrained, and only the plate bounds move with Z (dH = 1 there, 0 elsewhere).",
    ["inputs"], "all meshes, thicknesses, heights and displacement vectors",
    "No test reads the contact system.",
    ["model.py"], [("constraint", "model.py")], ["C, f, H, df, dH"])

add("C18", "Every solver state is in equilibrium and non-penetrating",
    "At every stored step of solve, and at every interpolated pseudo-time between steps, K u + C^T f = F on the free unknowns and C u <= H (within the solver tolerance), and all stored values of u, f, F are finite. "
    "The initial state is u = 0, f = 0; K and C are the matrices of stiffness and constraint for the same options.",
    ["inputs", "histories"], "all initial heights, geometries and packing targets; all step histories",
    "The solver has no reliable test at all.",
    ["solver.py", "model.py", "interpolation.py"], [("incremental loop in solve", "solver.py")], ["K, C, u(t), f(t), F(t), H(t)"])

add("C19", "Solver bookkeeping: Z, packing ratio, stopping",
    "Z starts at the top surface of the mesh and decreases at every step; the stretch factor equals Z(0)/Z(step); the plate bounds in H are lowered by exactly the displacement of Z and no other bound or load changes. "
    "Every step ends exactly when the next contact closes, and its mask marks the contacts closed when it began. "
    "The solver performs at most itermax steps, performs none once the requested packing is reached, and stops early only when no further contact can occur, the step error exceeds errtol (no stored step has such an error), or the contacts closed together make the step's linear system singular.",
    ["inputs", "histories", "configurations"], "all geometries, packing targets, iteration limits and tolerances",
    "The solver has no reliable test at all.",
    ["solver.py"], [("incremental loop in solve", "solver.py")], ["Z(t), rlambda(t), H(t), mask(t), err(t)"])

add("C20", "Contact forces act only through closed contacts",
    "At every stored step of solve a contact row carries a non-zero force only if its contact is closed (C u = H on that row, within tol), i.e. f (H - C u) = 0. "
    "Resultant of all floor forces balances the resultant of all plate forces, which never pulls and never decreases during compaction; single contact forces push too (f >= 0), except where the solver should have released a closed contact (known finding).",
    ["inputs", "histories"], "all geometries and step histories",
    "The solver has no reliable test at all.",
    ["solver.py"], [("active-set mask in solve", "solver.py")], ["f(t), H(t), C, u(t)"])

add("C21", "Packing results do not depend on unknown ordering and spare inputs",
    "solve gives the same u, f, Z for every permutation perm of the unknowns, for every exact linear solver passed as solve, and with verbose on or off (as long as the linear system of each step has one solution). "
    "It leaves mat unchanged and changes nothing in mesh except adding the thickness column h.",
    ["inputs", "configurations"], "all permutations, geometries",
    "The solver has no reliable test at all.",
    ["solver.py", "model.py"], [("permuted sub-system in solve", "solver.py")], ["results of solve, mat, mesh"])

add("C22", "Interpolated results reproduce and stay between their knots",
    "Interpolate(y) returns y[k] at t = k/(len(y)-1) (first value at 0, last at 1), stays within the convex hull of the two neighbouring values in between (linear kind), holds the last reached value for kind='previous', and returns the last value outside [0, 1]. "
    "Calling it without argument evaluates it at its own knots, with size resampling to size equally spaced pseudo-times, and results keep the data's type (booleans stay booleans).",
    ["inputs", "configurations"], "all data, sizes and pseudo-times",
    "No test calls Interpolate.",
    ["interpolation.py"], [("Interpolate.__init__ / __call__", "interpolation.py")], ["values returned by Interpolate"])

add("C23", "An exported fiber has its true geometry and fields",
    "Every point of vtk_fiber(...) is the fiber centre plus a point of the elliptic cylinder of axis (u, v, w): along the axis it lies within l/2 of the centre with both ends reached, and its two transverse coordinates satisfy (p/b)^2 + (q/h)^2 <= 1/4 with the surface reached, the thickness direction staying vertical for in-plane fibers. "
    "With index given, fields fiber, lbh, xyz, uvw, G, E hold the label, dimensions, local coordinates, direction and moduli at every point.",
    ["inputs"], "all dimensions, positions, unit directions, labels",
    "No reliable test exports a fiber.",
    ["render.py"], [("vtk_fiber", "render.py")], ["points and point fields"])

add("C24", "An exported fiber set contains every fiber once",
    "vtk_mat(mat) is the concatenation, in label order, of vtk_fiber of every row of mat with that row's data and label, and func is called exactly once per fiber with that fiber's mesh and label before combination. The resolution options given to vtk_mat or vtk_mesh apply to every fiber; vtk_mesh without fields exports the points and fields of vtk_mat.",
    ["inputs"], "all fiber sets",
    "No reliable test exports a fiber set.",
    ["render.py"], [("vtk_mat", "render.py")], ["points and fields of the combined mesh"])

add("C25", "Exported fields interpolate node values along each fiber",
    "In vtk_mesh(mat, mesh, displacement, rotation, force), a point at local abscissa x of fiber i (taken at 0.9999 x, which keeps fiber ends inside) between nodes k and k+1 gets the cubic Hermite interpolation of the values of those two nodes of the same fiber (rotation and moment being the slopes per unit of relative position between the nodes, zero when omitted), and its height is shifted by exactly that displacement; rotation and curvature are the first and second derivatives of that cubic. "
    "The fields displacement (vertical), rotation, curvature and force are present exactly when displacement, respectively force, is given. "
    "A displacement field that is one rigid vertical translation of all fibers moves every point by that translation. On a periodic mesh the result also holds the images of the fibers by one box size, and nothing farther than one size from the centre in x and y.",
    ["inputs"], "all meshes, displacement and force fields",
    "No reliable test exports a mesh with fields.",
    ["render.py"], [("vtk_mesh", "render.py")], ["points, displacement and force fields"])

add("C26", "Notebook settings give back the values they were given",
    "Settings(**params)[name] and Settings()(name=value) give back value for every parameter and every value of its domain: theta as a fraction of pi, infinite shear or tensile, None for the optional ones (seed, threshold, lmin, lmax, interp_size), itermax as an integer. "
    "Setting one parameter never changes another, and iteration and ** unpacking cover every parameter.",
    ["inputs", "histories"], "all parameter values and sequences of settings",
    "No test creates Settings.",
    ["widgets.py"], [("Settings.__init__/__getitem__/__setitem__", "widgets.py")], ["values read back"])

add("C27", "Building never alters its inputs and attributes follow the data",
    "Net(mat), Mesh(net), stiffness and vtk exports leave the tables and arrays they receive unchanged (data, order, columns, attributes); Stack changes only the heights z of mat, and no object built earlier changes when others are built. "
    "Each object carries n, size and periodic of what it was built from, and copying an object of the same class from a DataFrame keeps data and attributes.",
    ["inputs", "histories"], "all fiber sets, both periodicities, all orders of construction",
    "Tests never compare a table before and after.",
    ["mat.py", "net.py", "mesh.py"], [("attrs properties and constructors", "mat.py")], ["tables and attrs before and after each call"])

add("C28", "Empty and missing inputs work through the whole pipeline",
    "Mat(), Net(), Stack(), Mesh(), and Net, Stack and Mesh given None or empty objects, produce valid empty objects with zero rows (keeping the size and periodicity they were given), and their check methods accept None. "
    "stiffness, constraint and solve accept None and empty objects, returning empty systems and empty results, and vtk_mat and vtk_mesh return meshes without points, for every choice of options.",
    ["inputs", "configurations"], "all combinations of None, empty objects and option values",
    "The tests cover empty Mat, Net, Stack and Mesh with default options only, not the model or the solver.",
    ["mat.py", "net.py", "mesh.py", "model.py", "solver.py"], [("None handling in constructors, stiffness, constraint", "model.py")], ["returned objects"])

add("C29", "A stacked pile is a valid start for the packing simulation",
    "For every fiber set and network (periodic or not, with or without threshold), mesh = Mesh(Stack(mat, net, threshold)) has each node at the stacked height of its fiber, and its contact system is satisfied at rest: every finite bound H of constraint(mat, mesh) is >= 0. "
    "Its pair conditions are exactly the connections of the stack, each fiber has a floor condition and (without threshold) rests on the floor or on a connected fiber (some bound is 0), and the plate touches the pile. solve starts there: Z(0) is the top of the pile, stretch factor 1, and u = f = F = 0.",
    ["inputs", "configurations"], "all fiber sets, thicknesses, connection graphs and thresholds",
    "Tests check each stage alone on one set; none checks that the stages fit together.",
    ["net.py", "mesh.py", "model.py", "solver.py"], [("Stack.init, Mesh.init and constraint chained", "net.py")], ["mesh heights, H, dH, Z(0)"])

add("C30", "plot_system shows every coefficient of the system in its class",
    "plot_system draws each non-zero coefficient of [[K, C^T], [C, 0]] exactly once, at its place in the given order perm: as stiffness (K), or by the contact of its row or column as lower (closed floor contact), inner (closed pair), upper (closed plate contact) or inactive (open contact). "
    "When the linear system of the active unknowns is regular, the error it prints is the norm of the residual of that step, also for an inexact solver. It returns the axes and leaves matrices and vectors unchanged.",
    ["inputs", "configurations"], "all systems, states and permutations",
    "No test calls plot_system.",
    ["model.py"], [("plot_system", "model.py")], ["drawn matrices, printed error, returned axes"])

add("C31", "Omitted options take their documented defaults",
    "Leaving out any option gives exactly the result of passing its documented default, whatever the other arguments are. Mat: n 0, length 25, width 1, thickness 1, size 50, theta pi, psi 0, shear 1, tensile infinite, seed 0. Net: periodic True, pairs None; Stack: threshold None (no connection removed). "
    "stiffness: lmin None, lmax None, coupling 1. solve: packing 1, tol 1e-6, errtol 1e-6, interp_size None, perm None. vtk_fiber: 25 x 1 x 1 mm at the origin along x, shear 1, tensile infinite, no index (then no field), resolutions 1, 8 and 20.",
    ["configurations", "inputs"], "all arguments given along with the omitted ones",
    "The doctests print results of a few default calls; a default that differs from its documentation in solve, stiffness or render passes them.",
    ["mat.py", "net.py", "model.py", "solver.py", "render.py"], [("signatures of Mat.init, Net.init, Stack.init, stiffness, solve, vtk_fiber", "solver.py")], ["returned tables, matrices, trajectories, exported points"])

add("C32", "Solver results share one pseudo-time",
    "The results of solve are read at one common pseudo-time: step k of n lies at t = k/n. In between, u, f, F, H, Z and the stretch factor vary linearly, so the plate bounds in H follow Z at every t, while mask and err hold the values of the step last reached. With interp_size=k, u, f, F, H and Z called without argument return k values at equally spaced pseudo-times, all of them on the line through the stored steps.",
    ["inputs", "histories", "configurations"], "all trajectories, pseudo-times and interp_size",
    "No test calls solve or Interpolate.",
    ["solver.py", "interpolation.py"], [("interpolation of the stored steps at the end of solve", "solver.py")], ["u(t), f(t), F(t), H(t), Z(t), rlambda(t), mask(t), err(t)"])

add("C33", "Compaction keeps fibers between floor and plate, apart and balanced",
    "After every step of solve, and at every pseudo-time in between, each node of the pile, moved by its displacement in u, stays half a thickness above the floor z = 0 and half a thickness under the plate at Z, and two fibers in contact nodes stay half the sum of their thicknesses apart, in the order they were stacked, all within tol. "
    "The contact forces f carried to the nodes by C balance on every fiber: their vertical forces sum to zero, and with coupling 1, finite tensile moduli and no length limits so do their moments about any point.",
    ["inputs", "histories", "configurations"], "all piles, node heights, steps and pseudo-times",
    "No test calls solve.",
    ["solver.py", "model.py"], [("solve, with the bounds of constraint and the matrices of stiffness", "solver.py")], ["u(t), Z(t), f(t), C, against the node heights and thicknesses given"])

add("C34", "One set of options serves every stage; foreign options change nothing",
    "Mat, Net, Stack, Stack.constraint, Mesh, stiffness, constraint, solve and vtk_fiber accept all the options of a Settings object (as **inputs) at once: each reads those it documents and ignores the others, whatever their values. "
    "The result is exactly that of the call with its own options alone; solve hands lmin, lmax and coupling on to stiffness; Net keeps its own periodicity in Stack and Mesh, whatever option is given there.",
    ["configurations", "inputs"], "all values of the options of other stages, None included",
    "The tests call each stage with its own options only; the notebooks that pass **inputs are not run.",
    ["mat.py", "net.py", "mesh.py", "model.py", "solver.py", "render.py", "widgets.py"], [("keyword arguments of the constructors and of stiffness, constraint, solve, vtk_fiber", "solver.py")], ["returned tables, matrices, trajectories, exported points"])

add("C35", "Results do not depend on the units of length and stress",
    "Expressing all lengths (and positions, abscissae, size, threshold, lmin, lmax, tol) in a unit k times smaller and all stresses in a unit m times smaller gives the same pile in the new units: Mat draws the same directions and k times the positions; Net finds the same connections, periodic or not, with abscissae times k; Stack and Mesh keep the same order and heights times k (thicknesses well above 1e-7, the absolute tolerance of the linear programming solver); vtk_fiber scales its points. "
    "stiffness scales by m k per height and by a further k per rotation it couples, contact bounds by k, and solve (errtol converted as a force) goes through the same steps with displacements and Z times k, rotations and stretch factor unchanged, contact forces times m k^2.",
    ["inputs", "configurations"], "all piles and all ratios of units",
    "All tests use the same unit; a length or stress hard-coded anywhere shows only in another one.",
    ["mat.py", "net.py", "mesh.py", "model.py", "solver.py", "render.py"], [("all numerical constants: Mat.init, Net.init, Stack.init, stiffness, constraint, solve", "net.py")], ["tables, matrices and trajectories in both units"])

add("C36", "Column order and additional columns change nothing",
    "Columns are read by name: a Mat, Net, Stack or Mesh whose columns are in another order, or which carries additional numeric columns of any values, gives the same network, stack, mesh, stiffness, contacts, simulation and exported points and fields as the plain table; a column h a mesh already carries is not trusted over the thicknesses of its fibers.",
    ["inputs", "configurations"], "all column orders and values of additional columns",
    "Tests use tables as built, with the columns in their first order.",
    ["mat.py", "net.py", "mesh.py", "model.py", "solver.py", "render.py"], [("column access in Net.init, Stack, Mesh.init, stiffness, constraint, vtk_mat", "model.py")], ["tables, matrices, trajectories and exports of both tables"])

add("C37", "A longer simulation extends a shorter one",
    "Simulations of the same pile share one history: with a larger itermax, packing or errtol, solve first goes through exactly the same steps (displacements, forces, loads, bounds, plate heights, stretch factors, masks and errors) as with the smaller one, which is cut short only by that option: at itermax steps, at the first step whose stretch factor reaches packing, or at the first error above errtol. "
    "Calling solve again, silently or not, before or after other simulations of the same mesh, gives the same steps.",
    ["histories", "configurations"], "all piles and all pairs of options",
    "No test calls solve.",
    ["solver.py"], [("main loop and stopping criteria of solve", "solver.py")], ["stored steps of both runs"])

add("C38", "Fibers without contact do not influence each other",
    "Adding a fiber before or after the others leaves the connections and nodes Net finds among the others unchanged (labels shifted; in a periodic box, for fibers up to half its size). Adding fibers that touch none of the others leaves their stacked heights, the rows of Stack and the nodes, beams and constraints of Mesh unchanged; "
    "stiffness couples no two fibers and gives each the same coefficients as alone; contact bounds are the same but for a common shift of the plate; vtk_mat exports the same points and fields for each fiber.",
    ["inputs", "configurations"], "all fiber sets and all additional fibers",
    "The tests run whole sets; an influence of unrelated fibers shows only by comparing sets.",
    ["net.py", "mesh.py", "model.py", "render.py"], [("pairs in Net.init, Stack.init, Mesh.init, stiffness, constraint, vtk_mat", "net.py")], ["tables, matrices and exports of a set and of its parts"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
