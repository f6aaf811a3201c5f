NA = {'C28': 'quantifies over floating point error under refinement: a runtime numerical quantity no static argument in reach bounds',
      'C29': 'unbounded histories of floating point iterations: boundedness is a numerical-analysis statement no static argument in reach decides (and not true of the scheme for every velocity field)',
      'C30': 'the library and the reference programs discretise differently (cell centres and first order backtrace against nodes and third order), so step-for-step agreement is a statement about numerical error observable only by running both; what the reference programs compute is covered by C31-C37'}
DETAIL = {
 'C31': 'Each reference program is included as a whole in the probe file (`harness/ref.cc`, its main renamed), so the headers analysed are the ones it is built with; kernels are read as host functions of one generic thread.',
 'C32': 'The oracle derivatives come from `gals/calculus.py` (exact differentiation); sines and cosines of rational multiples of one angle are reduced to one sine and cosine, so double-angle rewritings agree.',
 'C33': 'The Jacobian of the foot map is obtained by differentiating the formula of the foot point, itself pinned by the same property; no numerical differencing.',
 'C34': 'std::lower_bound/upper_bound over the node coordinates are modelled by ceil/floor, valid because the derived coordinates are affine and increasing in the index (proved at each call). The CUDA kernel searches with a data-dependent loop: its tracker codes and border cells are decided, the interior cell of that kernel is not claimed.',
 'C35': 'Nine zones (corners, edges, interior) per program and entry point.',
 'C36': 'Address derivation in each outlined region (getelementptr, phi, select from captured variables). Stores under critical/single/reduction are undecided rather than accepted. Writes to field elements are covered by C33-C35: the value of each node is a function of the fields before the loop.',
 'C37': 'The program text is read with its settings block replaced by unknowns (`gals/props/refdrive.py`, `harness/refdrive.cc`), so equal defaults (nx = ny, dx = dy) hide nothing. The operations stay calls with havocked results; kernel launches, device memory and copies are modelled as host operations. The time loops of the MPI programs are not claimed (two processes).',
 'C01': 'Oracle: the mixed-radix index of the padded box, written independently in the check. Tests pin three slots of square grids; the check compares polynomials in (i, j, k, nx, ny, nz, pad). Signed overflow is judged for the INT_MAX placeholders of unused axes only.',
 'C02': 'Oracle: box_min + (i + 1/2) dx. generate() is interpreted with symbolic box, counts and padding; ghost and real nodes are one symbolic node with range facts. Sequences generate/generate, setPadding/generate are covered; longer histories reduce to these because the second generate is shown not to depend on earlier content.',
 'C03': 'Oracle: clamp(floor((x - min)/dx - 1/2), -pad, n + pad - 2).',
 'C04': 'Every operator of Vec3, VecN, Mat3 (int and double) on symbolic components; comparisons as normal forms of conditions.',
 'C08': 'Every load and store the interpreter meets in the kernels is an obligation 0 <= offset <= size - width of its allocation, proved from loop ranges, clamp facts and positivity of products.',
 'C09': 'The tensor-product Hermite cubic is built in the check from the corner data; comparison of exact rational polynomials (1D 4, 2D 16, 3D 64 coefficients).',
 'C10': 'The derivative is taken symbolically of the value the code derives, branch by branch when limiting is on.',
 'C11': 'Decision table over the five slope differences; conditions are compared as decision diagrams over polynomial comparisons.',
 'C14': 'The value stored at a symbolic node is compared with the interpolant (taken from the tree itself, C09 pins it) at x - dt u and (I - dt J)^T times its gradient.',
 'C16': 'Store sets of the time steps are enumerated with their loop ranges and matched against ghost slots, inputs and each real node; loop-carried dependences through field storage are violations.',
 'C18': 'The document is symbolic: each key is an uninterpreted term, so a field must equal exactly the term of its own key under exactly the condition that its section exists.',
 'C19': 'Allocation sites as typestate: new -> deleted once; copyability is decided by type traits at compile time.',
 'C22': 'Path conditions: the request must make the path condition after the call false in the production configuration, with an output event before the exit call.',
 'C23': 'Mod analysis: the address of every reachable store is traced to its root object; globals, function-local statics and thread locals must not be roots after start-up.',
 'C24': 'A client naming each public operation is compiled and its undefined symbols resolved against the symbol tables of the library objects; operations the library does not define in a dimension must stay unresolved.',
 'C25': 'Output operations are events with symbolic arguments inside summarised loops; their order and loop nest are compared with the stated form.',
 'C27': 'File system calls are events on symbolic paths; the model header of ext/filesystem (absent here) declares the interface of wjakob/filesystem.',
 'C05': 'Array slot is a symbolic integer with range facts, element types scalar, vector, matrix and mixed-derivative tuple; independence is an aliasing obligation (distinct allocation roots before and after assignment).',
 'C06': 'Oracle: the stencils written in the check; polynomial exactness is checked on the stencil itself (moments), so it is a consequence for every node rather than a sample.',
 'C07': 'Same engine as C06, for every (row, column) pair of 1D, 2D and 3D; untouched entries are frame obligations.',
 'C12': 'One symbolic point index; the single-point interpolant is taken from the tree (pinned by C09). Frame: no store of the batch loop reaches another array or a ghost slot.',
 'C13': 'The enclosing node is the one C03 pins; the blend is compared as a rational function.',
 'C15': 'Value stored at one symbolic node per dimension, frame of all other fields of both containers.',
 'C17': 'Storage roots and offsets of every accessor, const and mutable, on abstract heap objects.',
 'C20': 'Name comparison is an uninterpreted equality, so the condition under which storage changes is compared as a boolean function of it.',
 'C21': 'As C20, with the two name conditions (field, gradient scheme); pi/3.15 is compared exactly as the double constant of the expression.',
 'C26': 'The program is interpreted as a whole with parse, analytical fields, gradient, step and write as opaque operations with havoc effects; induction over the loop state covers late passes. Floating point accumulation of the clock is not modelled.',
}
