"""What each check analyses and the rule it applies (goes into the evidence)."""
COMMON = ('The library sources of the current tree and a small client that calls the public operation are compiled to compiler IR (twice: with and without BUILD_TESTS) and never run. '
          'A value-flow / array data-flow abstract interpretation derives, for a symbolic grid (cell counts, padding, box all unknowns), the value every store leaves at a symbolic node; '
          'each obligation compares that derived summary with the value the property states, in exact real arithmetic. ')
RULES = {
 'C01': 'Rules: derived index expression equals the mixed-radix form of the padded box; every overload reaches the same address; unused axes do not occur in the expression nor in an overflowing operation.',
 'C02': 'Rules: derived coordinate store at a symbolic (ghost or real) node, dX, oneOverDX, size and cell count equal their closed forms, also after a second generate and setPadding.',
 'C03': 'Rules: derived base node equals clamp(floor((x - min)/dx - 1/2)) per axis and lies in [-pad, n+pad-2].',
 'C04': 'Rules: derived component of every operator equals the algebraic definition, for int and double instantiations.',
 'C05': 'Rules: size equals grid size, element value after construction is zero, assignment makes element at a symbolic slot equal the source and later writes do not alias.',
 'C06': 'Rules: value stored at a symbolic non-ghost node equals the stencil, for every dimension and axis, scheme and front end.',
 'C07': 'Rules: value stored in row r, column c equals the stencil of component r along c scaled by spacing c; entries outside the dimension keep their old value.',
 'C08': 'Rules: every load and store address reached from the kernels, as a function of symbolic loop indices, velocity, dt and point, is within the allocation it refers to.',
 'C09': 'Rules: derived interpolant equals the tensor-product Hermite cubic of the corner data (coefficient comparison).',
 'C10': 'Rules: derived gradient equals the symbolic derivative of the derived value on each branch; nodal reproduction.',
 'C11': 'Rules: derived control points equal the published case table, case by case; Bernstein basis polynomials and derivatives equal the cubic ones.',
 'C12': 'Rules: stored result at a symbolic point index equals the single-point interpolant; frame of all other storage; no loop-carried dependence.',
 'C13': 'Rules: stored result equals the convex combination of the enclosing nodes; frame; affine exactness.',
 'C14': 'Rules: stored value/gradient at a symbolic node equals the interpolant at x - dt u and (I - dt J)^T grad; no dependence on current fields.',
 'C15': 'Rules: stored value equals prev - dt * u[0]; frame of every other field.',
 'C16': 'Rules: no store to ghost slots or to inputs; every real node is stored; no loop-carried dependence through field storage.',
 'C17': 'Rules: distinct storage roots per field, zero after construction, const and mutable access give the same address, grid identity.',
 'C18': 'Rules: every configuration field after parsing equals the value of exactly its key when its section is present and its old value otherwise (event-free symbolic document).',
 'C19': 'Rules: the five sections are distinct allocations, every numeric field is defined after construction, each allocation is released exactly once by the destructor, copying does not compile.',
 'C20': 'Rules: stored level set at a symbolic node equals |pos - centre| - radius when the name equals CIRCLE and is unchanged otherwise; frame.',
 'C21': 'Rules: stored velocity and velocity gradient at a symbolic node equal the rotation and its Jacobian under the name/scheme conditions; frame.',
 'C22': 'Rules: in the production configuration the path condition after an unimplemented request is false and a message is emitted before the exit; after an implemented request the path condition is true and no exit is reachable.',
 'C23': 'Rules: effect analysis over the whole library IR: no store, after start-up, whose address can be derived from a global or static object.',
 'C24': 'Rules: symbols required by a client that names every public operation are defined by the library objects (compile and symbol resolution); undefined dimensions are rejected.',
 'C25': 'Rules: the ordered sequence of output operations derived from the printing code equals the stated text form at every iteration; no store to the printed object.',
 'C26': 'Rules: the ordered sequence of library operations derived from the application (time loop unrolled three times, then a generic pass K and its successor), with symbolic arguments, path conditions and field contents, equals the stated march.',
 'C31': 'Rules: derived value and derivatives of the reference interpolant equal the tensor-product Hermite cubic of the corner data and its exact derivatives (coefficient comparison), in each of the four programs; corner data unchanged.',
 'C32': 'Rules: derived velocity, velocity gradient, level set and its derivatives equal the stated functions and their exact symbolic derivatives (trigonometric normal form); node coordinates and initial fields at a symbolic node.',
 'C33': 'Rules: stored foot point at a symbolic node equals the backward Euler / Runge-Kutta formula on the velocity the tree derives; the transported gradient equals the exact Jacobian of that foot map (symbolic differentiation) resp. Heun\'s method; frame of all other storage.',
 'C34': 'Rules: tracker code and enclosing cell at a symbolic node in each of nine zones of the foot point; value and gradient stored at a symbolic node equal the interpolant of the old fields in that cell and its transport, per tracker code; frame; columns outside the range untouched.',
 'C35': 'Rules: mixed derivative stored at a symbolic node of each of nine zones equals the stated differences; frame.',
 'C36': 'Rules: in the OpenMP-lowered IR no outlined parallel region stores to a captured variable its threads share and every region that writes fields divides its iterations; the MPI programs are type-checked against datatype handles that carry their element type (compile-fail witness).',
 'C37': 'Rules: the operations of each pass of the time loop (first three passes and two generic consecutive ones) form the stated sequence under the stated path condition; their scalar arguments equal the settings; the symbolic content of every array element at each operation equals the content the previous operation left.',
 'C27': 'Rules: the ordered sequence of file system operations derived from each helper, with its symbolic arguments, equals the stated one.',
}
ASSUME = ['exact real arithmetic for double (rounding, overflow to infinity and NaN are not modelled)',
          'allocation succeeds; int arithmetic of real cell counts and paddings does not overflow',
          'the C++ standard library behaves as specified (containers, streams and strings are replaced by models in stubs/)']
def text(p): return COMMON + RULES.get(p, '')
