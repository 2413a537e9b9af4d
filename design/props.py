import json
P = {}
def p(i, oracle, why, quick, thorough=""):
    P[i] = dict(oracle=oracle, why=why, quick=quick, thorough=thorough)
p("C01", "For every order all moments of products of Legendre polynomials spanning the exactness space must be exact; point count, positivity, sum 4, containment, distinctness and the Lobatto corners are checked; then every ordered pair of builds, with the first result overwritten in between.",
  "tests look at three orders of one family; exactness is a statement about every order and every polynomial, and independence of earlier rules is about histories.", 6)
p("C02", "Reference test functions built from NumPy polynomial objects in exact product order; derivatives by polynomial differentiation; boundary zeros and linear independence (smallest singular value) for the variational families; two bases alive at once, point arrays split/reversed.",
  "tests compare a few values for one order; a wrong coefficient in one family/order/derivative or hidden shared state needs the whole table.", 6)
p("C03", "Reference bilinear map, Jacobian and chain rule in closed form; all monomials xi^a eta^b (a,b<=3) as test functions, point by point and all at once; for affine cells second derivatives of all polynomials of degree <= 3. Nearly affine cells with moves down to 1e-7, tiny, huge and rotated placements.",
  "tests use a handful of symmetric cells for which transposition/sign errors cancel; here every lattice quadrilateral in every start vertex and orientation is tried.", 18)
p("C04", "From each cell's *reported* points the reference coordinates are recovered by Newton inversion, then value/gradient tables must equal weight times reference functions; weights must sum to the area and integrate polynomials exactly. Order-agnostic in the points.",
  "cell independence quantifies over all meshes and orders of cells; the tests assemble only fixed unit-square and circle meshes.", 20)
p("C05", "All histories of queries with results left alone or overwritten, followed by an audit of every query; baseline itself compared with the reference tables; all invalid indices (negative, n, huge, NumPy integers), two spaces interleaved.",
  "aliasing shows only after query-overwrite-query sequences; tests query once.", 10)
p("C06", "Load vector = quadrature sum recomputed from reported points, weights and reference functions, for all monomial sources, vector components, result containers; all request sequences; long meshes in several request orders.",
  "component/caching mix-ups need particular request histories and more than a few cells.", 12)
p("C07", "Product of valid and invalid settings at every entry point (space, set-up object, geometry, reader incl. refinement levels, handler, models): invalid -> the documented error class, valid -> the C04 oracle must accept the resulting space for exactly the requested setting.",
  "silently replaced settings hide in combinations (an invalid value that is only read on one path); tests try one invalid value each.", 10)
p("C08", "End to end: geometry -> space -> handler -> loss with an exact polynomial solution; residual must be at rounding level (float64 1e-12 scaled by the cancelling magnitude) and a source perturbed by g must give exactly mean over i of (integral of g v_i)^2, from an independent 14-point rule.",
  "the tests' accuracy runs have tolerances of percents; this decides sign/scale/transposition errors in any link of the chain for all PDEs.", 15)
p("C09", "Cells parsed into a grid: one rectangle per (column,row), exact sharing of corners, exact domain corners, positive area, equal spacing; the mesh object must describe the same cells; earlier results must survive later generations.",
  "tests use the unit square and one size.", 6)
p("C10", "For every request and every answer of the random design seam (ends/middle of strata, column orders): tags, counts floor(n/4), exactly fixed coordinate, containment, distinctness; histories on one object; the real sampler in addition.",
  "statements about every outcome of a random design cannot be tested by sampling it.", 8)
p("C11", "Mesh files written by an independent writer in every vertex cycle, numbering, section order, dimension 2/3, layout; cells must have exactly the file's vertices, counter-clockwise, in file order; all pairs of reads on one or several objects, same or different file names.",
  "tests read one well-formed file once.", 8)
p("C12", "All assignments of tags to edges x refinement x sampling x offsets x edge orders x directions: uniform = the exact refinement without duplicates and with vertices exact; random = requested count on edges of the tag.",
  "tests count points for one file.", 10)
p("C13", "Distinguishable values per (tag, x, y, component): multiset of (x, y, value) must be exactly the expected one; all call sequences with returned lists overwritten; long boundaries, many tags.",
  "mis-pairing is invisible when one function is used for all tags, as in the tests.", 8)
p("C14", "Independent parser of the VTK dialect: header/mesh identical to the domain's file and to the mesh file read last (points, quadrilaterals, edges), fields in order, values bit-exact (including -0.0, NaN, inf, subnormals); all write sequences incl. rejected ones, with a model of the directory.",
  "round-trip at full precision and histories of writes are not tested at all.", 6)
p("C15", "Blocks judged against the reference tables evaluated at the delivered coordinates (so coordinates, tables and loads are tied together); all ordered meshes incl. equal-area and micro/mega cells, coinciding dimensions, up to 1030 cells; pairs of handlers.",
  "a permutation consistent in shape but not in slot cannot be seen by shape tests.", 15)
p("C16", "Converted tensors equal the given values rounded to the precision, same keys and order; identity/type/value snapshot of the user's dictionary before and after; all sequences of conversions with shared or fresh dictionaries, results overwritten.",
  "in-place conversion shows only at the second conversion or in another precision.", 9)
p("C17", "Sensor points inside the bounding box with the exact solution at that point, exact count and precision, for every seam answer; external: every selection of rows enumerated through the randint seam, must be rows of the file.",
  "'for every outcome of the random selection' needs ownership of the random source.", 8)
p("C18", "Loop-only reference of each weak residual; one-hot tensors for every (table entry, prediction entry) pair and load entry decide every contraction index; dense, larger, coinciding dimensions, magnitudes 1e-9..1e9; call sequences.",
  "the tests only run one training per PDE.", 12)
p("C19", "Reference network, derivative, loss in float64 loops evaluated at the weights read before the step; every history of steps/penalties/coefficients/external changes; long runs of 120 steps judged at every step.",
  "reported losses are never compared with anything in the tests; stale traces/penalties need histories.", 15)
p("C20", "Gradient of the reference loss by complex steps, Adam reimplemented; every unknown after every step must be the updated one; training data bit-identical.",
  "a missing variable, doubled update or wrong gradient still trains in the tests.", 35)
p("C21", "As C20, with the expected rate of the configured schedule at step k; eager runs over the settings, graph histories with evaluations in between, far steps (99, 1000, 20000).",
  "tests never look at the rate.", 15)
p("C22", "All interleavings of the operations of two models sharing inputs: each trajectory must be that of the model alone (bitwise up to 1e-12), caller's data unchanged.",
  "needs the full set of interleavings, i.e. C(6,3)..C(12,6) schedules per pair.", 25)
p("C23", "Output = constraint applied to the independent reference network at the same points in every state of every history; losses use the constrained output; boundary data of any content/size must not matter.",
  "tests train once and look at the error.", 20)
p("C24", "Independent evaluation of the layer list (attention included) in float64; all splits of a batch, orders of points and input containers; every architecture list within bounds.",
  "tests instantiate two architectures.", 18)
p("C25", "User loss functions observe what they are given: guess -> value of the step's variable -> report; unused unknowns, shared guess dictionaries, all histories; domain coefficient = second output at the same point, boundary/sensor on first output.",
  "needs observation at every step of every history.", 20)
p("C26", "Uninterrupted reference run vs every stop point x restore target x checkpoint pattern: outputs, coefficients, optimiser state and all later losses equal; models from configuration equivalent and independent, all interleavings of continued runs.",
  "crash/restart style property: every stop point and restore pattern, tests save once.", 22)
p("C27", "Definitions in exact rational arithmetic (Fractions) on all small vectors, layouts and precisions; report order; inputs unchanged.",
  "tests use two vectors.", 18)
p("C28", "Model of the output directory and of the figure registry; every pair (triple) of routines; figures inspected at print time: the drawn arrays must be the given data; real rendering once per routine; inputs unchanged.",
  "histories of plotting calls and interference with user figures.", 20)
p("C29", "Reference trial computed through the package's own lower layers (judged by the other properties) with exactly the suggested settings; two concurrent trials under a controlled scheduler (sys.settrace-free, explicit yield points), all schedules up to the preemption bound.",
  "interleavings cannot be provoked by tests; suggestions are never compared with what is trained.", 17)
p("C30", "The undisturbed execution of the same operation is the oracle (its correctness is judged by the other properties). Faults: a file size limit set by the operating system tears the file after exactly n bytes; folders and files moved away or replaced; inputs cut; user functions and the canvas raising at the k-th call; KeyboardInterrupt raised by a trace function at the k-th call or line. After the fault: exception raised, bystander files and caller data bit-identical, unknowns as before the step; then the repetition must give bit-identical results and files.",
  "no test injects a fault; a session left open, a half-filled cache or a swallowed exception only shows after one particular failure.", 60)
p("C31", "Every history runs in a process forked after import and before any operation; its last result and files must be bit-identical to those of the operation alone, and repeating the first operation on its old object must give its first result. Process-wide settings and the number of open files are compared before and after.",
  "tests never compare with a fresh process, and no suite visits all pairs of operations.", 60)
p("C32", "Everything written to the descriptors 1 and 2 during the operation is captured and parsed; each stated number, shape, name and file is compared with the delivered arrays and the files in the folder, each counter likewise. A missing statement is a violation, too.",
  "no test reads a report; wrong ones (doubled corner points, a stale array, a name of another file) need particular meshes or histories.", 45)
json.dump(P, open(__file__.replace(".py", ".json"), "w"), indent=0)
