#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand when a property changes)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
S='src/cpu/';I='include/gals/'
p('C01','Every grid node has its own storage slot, and the slots fill the storage',
  "For every cell count and padding, the 3D-to-1D index maps the padded node box of a 1D, 2D or 3D grid one-to-one onto 0..size-1, x fastest, then y, then z. Indices along axes the grid does not have never influence the slot, and computing a slot never overflows for them, whatever their value. Every way of naming a node (three integers or an integer triple; grid coordinate, field element or bare index) reaches the same slot.",
  ['inputs'],'all nx,ny,nz>=1, all paddings>=0, all in-range node indices, any value on unused axes, all three dimensions',
  'The grid tests sample index(0,0,0) on 10-cell grids with padding 1; a wrong stride or a padding mix-up on a non-cubic grid passes them.',
  [S+'grid.cc',I+'utilities/grid.h',S+'array.cc'],
  [('Grid::index','src/cpu/grid.cc'),('Grid::operator(), Grid::x, Array::operator()','src/cpu/grid.cc, src/cpu/array.cc')],
  ['Grid::index','Grid::size','Grid::operator()','Array::operator()','Array::operator[]'])
p('C02','Generated grids place every node, ghosts included, at its cell centre',
  "After generate(), for any box, cell counts and padding (also after re-generating, or after changing the padding), node i along an axis lies at box_min + (i + 1/2)*dx for real and ghost nodes alike, with dx = (box_max - box_min)/n on every axis and the reported reciprocal spacing equal to 1/dx on every axis of the grid. The storage size is the product over the grid's axes of (n + 2*padding) (times the cell counts of axes it does not have), and the reported cell count is the product of the cell counts over its axes.",
  ['inputs','histories'],'all boxes, cell counts >=1, paddings >=0; any sequence of setPadding/generate calls',
  'Tests look at a few nodes of one 10-cell grid with the default padding of 1.',
  [S+'grid.cc',I+'utilities/grid.h'],[('Grid::generate','src/cpu/grid.cc'),('Grid::Grid','src/cpu/grid.cc')],
  ['Grid::operator()','Grid::x','Grid::dX','Grid::oneOverDX','Grid::totalCells','Grid::size','Grid::numCells','Grid::getPadding','Grid::getMask'])
p('C03','The base node of a point encloses it and is always a usable cell',
  "For any point whose enclosing cell of nodes lies in the padded grid, the base node id is, on each of the grid's axes, the largest node index whose coordinate does not exceed the point. For a point anywhere else the base node id is the nearest cell of the padded grid, so that the base node and its upper neighbours always exist in storage.",
  ['inputs'],'all finite points, boxes, cell counts and paddings with at least two stored nodes per axis',
  'Tests try a handful of interior points on one grid.',
  [S+'grid.cc'],[('Grid::baseNodeId','src/cpu/grid.cc')],['Grid::baseNodeId'])
p('C04','Vector and matrix values obey their algebra',
  "Small vectors and matrices of ints and doubles are built component by component in the documented (row-major) order, default to all zeros, and report their sizes; element access by position or by (row, column) designates the same element for reading and writing. Subtraction, scaling, component-wise product and quotient, copy assignment, magnitude (Euclidean norm) and minimum (the least component, ties included) act on every component; equality holds exactly when every pair of components agrees (within 1e-10 for doubles); the matrix 'dot' of a vector is the transposed matrix applied to it; square and cube helpers are exact.",
  ['inputs'],'all component values',
  'Tests use one or two fixed operand values per operator and never exercise ties, dot, or most off-diagonal entries.',
  [S+'vec3.cc',S+'mat3.cc',S+'vec_n.cc',I+'utilities/utilities.h',I+'utilities/vec3.h',I+'utilities/mat3.h'],
  [('Vec3 operators','src/cpu/vec3.cc'),('Mat3 operators','src/cpu/mat3.cc'),('VecN','src/cpu/vec_n.cc'),('is_equal, sqr, cube','include/gals/utilities/utilities.h')],
  ['Vec3','Mat3','VecN','is_equal','sqr','cube'])
p('C05','Field arrays start zeroed, cover the grid, and copy by value',
  "A field array built on a grid has exactly one element per stored node of that grid, every element is the zero of its type, and it reports that grid and its cell counts. Assigning one array to another makes every element, ghosts included, equal to the source's, and the two arrays stay independent afterwards.",
  ['inputs','histories'],'all grids and paddings, all element types, all contents',
  'Tests construct a 1D array and check a few elements.',
  [S+'array.cc',I+'utilities/array.h'],[('Array::Array','src/cpu/array.cc'),('Array::operator=','src/cpu/array.cc')],['Array','Array::data','Array::size','Array::grid','Array::numCells'])
p('C06','Scalar gradients are the stated finite differences at every node',
  "At every non-ghost node and along every axis of the grid, the second-order scheme writes the central difference of the field and the third-order scheme the upwind-biased four-point difference, each scaled by that axis' own spacing. They are therefore exact on every polynomial of degree two, respectively three, in 1D, 2D and 3D. The generic gradient front end gives the result of the scheme it was instantiated with.",
  ['inputs'],'all fields, all nodes, axes, cell counts, paddings large enough for the stencil, all anisotropic spacings',
  'Tests compare the first entry of the result for the field "value = i" only; stencils, axes, spacings and nodes other than the first are free to change.',
  [S+'gradient/second-order-central.cc',S+'gradient/third-order.cc',S+'gradient.cc'],
  [('SecondOrderCentral::compute','src/cpu/gradient/second-order-central.cc'),('ThirdOrder::compute','src/cpu/gradient/third-order.cc'),('Gradient::compute','src/cpu/gradient.cc')],
  ['Gradient::compute','SecondOrderCentral::operator()','ThirdOrder::operator()'])
p('C07','Vector gradients are full Jacobians: row = component, column = direction',
  "At every non-ghost node the gradient of a vector field holds in row r, column c the finite difference (central, respectively third-order biased) of component r along axis c, scaled by the spacing of axis c, for every pair of the grid's axes. Entries outside the grid's dimensions are left alone.",
  ['inputs'],'all vector fields, nodes, component/direction pairs, anisotropic spacings, 1D, 2D, 3D',
  'The only vector-gradient assertions look at the entry (0,0) of the first node.',
  [S+'gradient/second-order-central.cc',S+'gradient/third-order.cc',S+'gradient.cc'],
  [('SecondOrderCentral::compute(Vec3)','src/cpu/gradient/second-order-central.cc'),('ThirdOrder::compute(Vec3)','src/cpu/gradient/third-order.cc')],
  ['Gradient::compute'])
p('C08','Gradient, time-step and interpolation kernels stay inside storage',
  "Given padding of at least one (two for the third-order gradient) no gradient computation reads or writes outside the storage of its fields. Time steps and interpolation stay inside the storage of the fields for every velocity, time step and evaluation point, provided the padding is at least one.",
  ['inputs'],'all cell counts, paddings from the stated minimum, velocities, time steps, points',
  'An out-of-range access on one ghost layer usually reads plausible memory; the tests have one grid and never leave the box.',
  [S+'gradient/second-order-central.cc',S+'gradient/third-order.cc',S+'interpolation/hermite-1d.cc',S+'interpolation/hermite-2d.cc',S+'interpolation/hermite-3d.cc',S+'interpolation/linear-1d.cc',S+'temporal-schemes/euler.cc',S+'temporal-schemes/semi-lagrangian/euler.cc',S+'grid.cc'],
  [('loop bounds and stencil offsets','the compute functions'),('Grid::baseNodeId','src/cpu/grid.cc')],['every field access'])
p('C09','Hermite interpolation is the tensor-product cubic through nodal data',
  "Evaluating the interpolant (limiting off) at any point of a cell uses only the previous-step value, gradient and mixed derivatives at the 2, 4 or 8 corners of that cell, and returns the unique tensor-product cubic matching them: value, all first derivatives and all mixed derivatives. It is hence exact for every polynomial of degree at most three per coordinate and continuous with its first derivatives across cells.",
  ['inputs'],'all points, cells, nodal data, anisotropic spacings, 1D/2D/3D',
  'The 3D path has no assertion at all and the 1D/2D tests use one polynomial on one grid; most of the 64 control points are never distinguished.',
  [S+'interpolation/hermite-1d.cc',S+'interpolation/hermite-2d.cc',S+'interpolation/hermite-3d.cc',I+'cpu/interpolation/hermite.h'],
  [('Hermite::interpolate','src/cpu/interpolation/hermite-*.cc'),('Bernstein basis, get_control_points','include/gals/cpu/interpolation/hermite.h')],
  ['Hermite::interpolate'])
p('C10','The interpolated gradient is the exact derivative of the interpolated value',
  "With gradient limiting on or off, in 1D, 2D and 3D, the gradient returned with an interpolated value is the exact spatial derivative of the interpolant that produced the value, on every axis of the grid, and zero on the other axes. At a node the interpolated value equals the nodal value, and limiting never changes that.",
  ['inputs','configurations'],'all points, nodal data, spacings, both limiter settings, 1D/2D/3D',
  'Tests never switch limiting on and never compare value and gradient with each other.',
  [S+'interpolation/hermite-1d.cc',S+'interpolation/hermite-2d.cc',S+'interpolation/hermite-3d.cc',I+'cpu/interpolation/hermite.h'],
  [('B0..B3 and their primes','include/gals/cpu/interpolation/hermite.h'),('Hermite::interpolate','src/cpu/interpolation/hermite-*.cc')],['Hermite::interpolate'])
p('C11','Control points and gradient limiting follow the published algorithm',
  "The four Bernstein control points of an edge are the end values and the end values moved by a third of spacing times slope; without limiting nothing else happens. With limiting, exactly the case of the Bockmann et al. algorithm selected by the signs of its slope tests is applied, leaves the end points alone, and an edge on which no test fires keeps its unlimited control points. The Bernstein basis and its derivatives are the cubic ones.",
  ['inputs'],'all end values, slopes, spacings, both limiter settings',
  'No test calls the limiter.',
  [I+'cpu/interpolation/hermite.h'],[('get_control_points','include/gals/cpu/interpolation/hermite.h'),('B0..B3','include/gals/cpu/interpolation/hermite.h')],['get_control_points','B0..B3, B0_Prime..B3_Prime'])
p('C12','Batch interpolation evaluates every point and touches only its results',
  "Interpolating a level set at an array of points stores, for each non-ghost point, exactly the unlimited interpolant's value and gradient at that point into the 'interpolated' fields at the same index. The previous and current fields, their mixed derivatives, the points and all ghost entries are unchanged, and results do not depend on the order in which points are visited. The generic front end behaves as the scheme it was instantiated with.",
  ['inputs'],'all point arrays on the level set\'s grid, all data, 1D/2D/3D',
  'Tests compare one summed error norm in 1D and 2D and nothing in 3D.',
  [S+'interpolation/hermite-1d.cc',S+'interpolation/hermite-2d.cc',S+'interpolation/hermite-3d.cc',S+'interpolate.cc',I+'cpu/interpolation/hermite.h'],
  [('Hermite::compute','src/cpu/interpolation/hermite-*.cc'),('Interpolate::compute','src/cpu/interpolate.cc')],['Interpolate::compute','Hermite::operator()'])
p('C13','1D linear interpolation blends exactly the two enclosing nodes',
  "The 1D linear scheme returns (1-t)*a + t*b from the two nodes enclosing the point, t being the point's relative position between them, for every point of the point array; it changes nothing but the result array's non-ghost entries. It is hence exact on affine fields and never leaves the range of the two nodal values.",
  ['inputs'],'all points, fields, spacings',
  'The test checks one field through an error norm.',
  [S+'interpolation/linear-1d.cc',S+'interpolate.cc'],[('Linear::linearInterpolation, Linear::compute','src/cpu/interpolation/linear-1d.cc')],['Interpolate::compute','Linear::linearInterpolation'])
p('C14','A semi-Lagrangian step pulls value and gradient back along characteristics',
  "For every non-ghost node x with velocity u and velocity gradient J there, one step of size dt sets the level set to the interpolant of the previous fields at x - dt*u and the gradient to (I - dt*J) transposed applied to the interpolated gradient there. Only the previous fields, the velocity and its gradient determine the result: what was in the current fields before the step does not matter.",
  ['inputs'],'all velocity fields and gradients, time steps, previous fields, 1D/2D/3D',
  'The semi-Lagrangian test has no assertion on the result.',
  [S+'temporal-schemes/semi-lagrangian/euler.cc',S+'temporal.cc'],[('SEMI_LAGRANGIAN::Euler::compute','src/cpu/temporal-schemes/semi-lagrangian/euler.cc'),('Temporal::compute','src/cpu/temporal.cc')],['Temporal::compute'])
p('C15','The explicit Euler step subtracts dt times the velocity term',
  "One explicit Euler step sets the level set at every non-ghost node to the previous value there minus dt times the first velocity component there, in 1D, 2D and 3D, and changes no other field.",
  ['inputs'],'all fields, velocities, time steps',
  'The Euler test has no assertion on the result.',
  [S+'temporal-schemes/euler.cc',S+'temporal.cc'],[('Euler::compute','src/cpu/temporal-schemes/euler.cc'),('Temporal::compute','src/cpu/temporal.cc')],['Temporal::compute'])
p('C16','Time steps never touch ghost cells or their inputs',
  "Neither time-stepping scheme writes a ghost entry of any field, and neither writes the previous-step fields, the mixed derivatives, the velocity, its gradient or the grid. Every non-ghost node is updated, and its new value does not depend on the order in which nodes are processed.",
  ['inputs','histories'],'all grids, fields, velocities, time steps',
  'No test looks at ghost entries or at the inputs after a step.',
  [S+'temporal-schemes/euler.cc',S+'temporal-schemes/semi-lagrangian/euler.cc',S+'interpolation/hermite-1d.cc',S+'interpolation/hermite-2d.cc',S+'interpolation/hermite-3d.cc'],
  [('loops over numCells()','the compute functions')],['Levelset fields','LevelsetVelocity fields'])
p('C17','Level-set and velocity containers keep each field in its own storage',
  "Each named field of a level set (value, gradient, mixed derivatives; current, previous, interpolated) and of a velocity (vector, gradient) is its own array on the container's grid, zero after construction; writing one never shows in another. Mutable and read-only access to a field designate the same storage, and both containers report the grid they were built on.",
  ['inputs','histories'],'all sequences of writes through any accessor, all grids',
  'Tests write each accessor once and read it back at one node.',
  [I+'cpu/levelset.h',S+'levelset.cc',I+'cpu/levelset-velocity.h',S+'levelset-velocity.cc'],
  [('accessors','include/gals/cpu/levelset.h, include/gals/cpu/levelset-velocity.h'),('constructors','src/cpu/levelset.cc, src/cpu/levelset-velocity.cc')],['Levelset accessors','LevelsetVelocity accessors'])
p('C18','Every input key ends up in exactly its own configuration field',
  "Parsing an input file copies each documented key of the general, grid, time, velocity and level-set sections, converted to its documented type, into the configuration field of the same meaning and nowhere else. A section absent from the file leaves that section's configuration untouched, and sections do not influence each other.",
  ['inputs'],'all input files with any subset of sections and any values',
  'The parser test parses one file and asserts nothing about the values.',
  [S+'input-parser.cc',S+'input-parser/general.cc',S+'input-parser/grid.cc',S+'input-parser/time.cc',S+'input-parser/velocity.cc',S+'input-parser/levelset.cc',S+'input-parser/input-parser-base.cc'],
  [('InputParser::parse','src/cpu/input-parser.cc'),('section parsers','src/cpu/input-parser/*.cc')],['InputParser::parse','InputFields'])
p('C19','Configuration objects own their sections, start defined, and free them once',
  "A freshly created configuration holds five distinct sections whose every numeric field has a definite value. Destroying it releases each section exactly once, and no copy of a configuration can be made that would share or release its sections a second time.",
  ['histories','programs'],'all programs that create, copy, pass and destroy configurations',
  'Tests create one configuration and never copy it or read an unset field.',
  [S+'input-fields/input-fields.cc',I+'input-fields/input-fields.h'],[('InputFields constructor and destructor','src/cpu/input-fields/input-fields.cc')],['InputFields'])
p('C20','The analytical circle level set is the signed distance to its circle',
  "For the field name CIRCLE the analytical level set stores, at every non-ghost node, the distance of that node's given position from the configured centre minus the configured radius, in 1D, 2D and 3D. For any other name it changes nothing.",
  ['inputs'],'all positions, centres, radii, names',
  'The analytical-field tests are not built here and sample one grid.',
  [S+'analytical-fields/levelset.cc',I+'analytical-fields/levelset.h'],[('ANALYTICAL_FIELDS::Levelset::compute','src/cpu/analytical-fields/levelset.cc')],['ANALYTICAL_FIELDS::Levelset::compute'])
p('C21','The analytical circular velocity is a rigid rotation with matching gradient',
  "For the field name CIRCULAR in 2D and 3D the analytical velocity at every non-ghost node at position (x, y) is w*(cy - y, x - cx, 0) about the configured centre (cx, cy) with w = pi/3.15. If the gradient scheme is ANALYTICAL, the velocity gradient at every non-ghost node is the exact Jacobian of that field (row = component, column = direction); otherwise the velocity gradient is unchanged. For any other name nothing changes.",
  ['inputs'],'all positions, centres, names, gradient schemes',
  'The analytical-field tests are not built here, use a centre with equal coordinates and never look at the gradient.',
  [S+'analytical-fields/velocity.cc',I+'analytical-fields/velocity.h'],[('ANALYTICAL_FIELDS::Velocity::compute','src/cpu/analytical-fields/velocity.cc')],['ANALYTICAL_FIELDS::Velocity::compute'])
p('C22','Unimplemented or invalid requests never continue silently',
  "In a production build every request the library declares unimplemented or invalid (level-set linear interpolation, array Hermite interpolation, circular velocity in 1D, a 3-vector from a sequence of another length) reports itself and ends the process before any further result is computed. Requests that are implemented never end the process.",
  ['inputs','configurations'],'all calls of those entry points, in every supported dimension',
  'The test build replaces termination by a printed line, so no test sees it.',
  [I+'utilities/utilities.h',I+'cpu/interpolation/hermite.h',S+'interpolation/linear-1d.cc',S+'vec3.cc',S+'analytical-fields/velocity.cc'],
  [('GALS_FUNCTION_NOT_IMPLEMENTED, GALS_ABORT','include/gals/utilities/utilities.h')],['process termination'])
p('C23','Computations leave no hidden state behind',
  "No library operation writes memory that outlives the call other than the objects passed to it: no global or static object is modified after program start. Two calls with equal arguments therefore give equal results whatever happened in between, and calls on disjoint objects cannot interfere when run concurrently.",
  ['histories','schedules'],'all call sequences and all thread interleavings of calls on disjoint objects',
  'Each test case runs in a fresh process on one thread.',
  [S+'analytical-fields/levelset.cc',S+'analytical-fields/velocity.cc',I+'analytical-fields/levelset.h',I+'analytical-fields/velocity.h',I+'utilities/utilities.h'],
  [('absence of stores to statics','all library functions')],['global and static objects'])
p('C24','Every documented operation links for 1D, 2D and 3D',
  "A program that uses any public operation of the library for double-valued grids links against it in every dimension in which the operation is defined: grids, arrays of every element type used by the containers, containers, both gradient schemes, Hermite interpolation, both time steps, analytical fields, parsers. Operations the library does not define for a dimension are rejected at compile or link time rather than substituted.",
  ['programs'],'all user programs over the public headers',
  'The test program only references the instantiations its own cases use.',
  [S+'array.cc',S+'vec_n.cc',S+'gradient.cc',S+'interpolate.cc',S+'temporal.cc',S+'levelset.cc',S+'levelset-velocity.cc'],
  [('explicit instantiations','end of each src/cpu/*.cc')],['link of a client'])
p('C25','Printed fields list every real node once, coordinates then value',
  "Printing a field array writes one line per non-ghost node, x slowest and z fastest, holding the node's three coordinates and then the value's components in order, tab-separated; printing a vector or matrix writes its components in order. Numbers are formatted as the stream is set up; printing changes nothing, neither the printed object nor the stream's formatting.",
  ['inputs'],'all fields and grids',
  'No built test checks printed output.',
  [I+'utilities/array.h',I+'utilities/vec3.h',I+'utilities/mat3.h',I+'utilities/vec_n.h'],[('operator<<','include/gals/utilities/*.h')],['operator<<'])
p('C26','The advection program marches from the configured start to the configured end',
  "The advection application starts its clock at the configured start time and repeats, with the configured step (or, when a constant step is declined, half the smallest spacing among the grid's own axes), exactly: advance the clock by the step, velocity at the new time, gradient of the current level set, copy of current to previous fields, one semi-Lagrangian step; it stops after the first step whose time reaches (within 1e-10) or passes the configured end. Grid and node positions are those of the configured box and cell counts, the grid carries enough padding for the gradient scheme used, and after the last step the velocity field is written to the file 'velocity' in the configured output directory.",
  ['inputs','histories'],'all input files',
  'The application is not part of the test build.',
  ['applications/advection/main.cc'],[('main','applications/advection/main.cc')],['order of library calls'])
p('C27','File helpers act on the given path only',
  "Checking, creating and removing files or directories acts on exactly the path given and reports the file system's answer; creating a directory that exists succeeds without touching it; writing a field truncates and fills exactly the named file with the field's printed form. The root directory returned is the one last set.",
  ['inputs'],'all paths and fields',
  'The file-utility tests are not built here.',
  [S+'file-utils.cc',I+'utilities/file-utils.h'],[('FileUtils','src/cpu/file-utils.cc')],['FileUtils'])
p('C28','Level-set accuracy improves at the schemes\' nominal order',
  "On smooth fields the discretisation error of gradients, interpolation and time stepping shrinks at the schemes' nominal order under refinement, in floating point arithmetic.",
  ['inputs'],'all smooth fields and refinement sequences',
  'Tests use one resolution.',
  [S+'gradient/third-order.cc',S+'temporal-schemes/semi-lagrangian/euler.cc'],[('the schemes','src/cpu')],['error norms'])
p('C29','Long advection runs stay bounded',
  "Advecting a level set for any number of steps with any bounded velocity keeps all values finite and the interface's area error bounded.",
  ['histories'],'all run lengths, velocities and time steps',
  'Tests take one step.',
  [S+'temporal-schemes/semi-lagrangian/euler.cc'],[('SEMI_LAGRANGIAN::Euler','src/cpu/temporal-schemes/semi-lagrangian/euler.cc')],['field values'])
p('C30','The library agrees with the reference solvers',
  "On equal inputs the library's advection step produces the same fields as the reference serial, OpenMP, MPI and CUDA programs shipped with it.",
  ['inputs','schedules'],'all inputs, thread counts and rank counts',
  'The reference programs are not built.',
  ['src/reference/Hermite.h','src/reference/AdvectionPointCalcs.h'],[('reference kernels','src/reference')],['field values'])
R='src/reference/'
p('C31','The reference solvers interpolate with the bicubic Hermite polynomial',
  "In the reference programs (serial, OpenMP/MPI, old serial, CUDA) hp(phi, psix, psiy, psixy, x, y, xo, yo, dx, dy) is the tensor-product cubic Hermite interpolant of the four corner values, x- and y-derivatives and mixed derivatives of the cell with lower-left corner (xo, yo), corners ordered lower left, lower right, upper left, upper right; hermx and hermy are its exact partial derivatives; the corner data are not changed.",
  ['inputs'],'all corner data, points (inside the cell or not), cell origins and spacings',
  'No test touches the reference programs.',
  [R+'Hermite.h',R+'SerialCode/Hermite.h',R+'OldSerialCode/Hermite.h',R+'CUDA/HermiteCUDA.cu'],[('hp/hermx/hermy','src/reference')],['returned values'])
p('C32','The reference solvers use the stated vortex and initial bell, with exact derivatives',
  "In the reference programs the velocity is the single vortex u = sin^2(pi x) sin(2 pi y) cos(pi t/T), v = -sin^2(pi y) sin(2 pi x) cos(pi t/T), the functions gradUx, gradUy, gradVx, gradVy are its exact partial derivatives, the initial level set is exp(-d^2) - exp(-0.15^2) with d the distance to (1/2, 3/4) and its derivative functions are the exact first and mixed derivatives. Node j of an axis lies at lower limit + j * spacing, and the initial fields and the velocity arrays hold these functions at the nodes (rows are y, columns are x).",
  ['inputs'],'all points, times, periods, grid sizes and limits',
  'No test touches the reference programs.',
  [R+'VortexVelocity.h',R+'InitializeLevelSet.h',R+'Allocation.h',R+'OldSerialCode/Initializer_vortex.h',R+'CUDA/VortexVelocityCUDA.cu',R+'CUDA/Allocation.h'],[('velocity and initial fields','src/reference')],['returned values, initial arrays'])
p('C33','Reference foot points and gradient transport are consistent',
  "For every node and time step the reference programs' foot point is the node traced back by one explicit Euler step, or by the three-stage Runge-Kutta step (velocities at the node at the new time, at the Euler point at the old time and at the quarter-sum midpoint at half time, weights 1/6, 1/6, 2/3), for all rows and columns (or exactly the given column range, other columns untouched); nothing else is written. The superconsistent scheme returns the gradient multiplied by the exact transposed Jacobian of that same foot map, and the Heun variants are predictor/corrector steps of the gradient equation.",
  ['inputs','histories'],'all grids, time steps, periods, column ranges, gradients',
  'No test touches the reference programs.',
  [R+'AdvectionPointCalcs.h',R+'TimeSteppingMethods.h',R+'CUDA/AdvectionPointCalcsCUDA.cu',R+'CUDA/TimeSteppingMethodsCUDA.cu'],[('advection_point, SuperConsistentScheme, Heuns_*','src/reference')],['xadv, yadv, returned gradients'])
p('C34','The reference update takes value and gradient from the cell enclosing the foot point',
  "For every node the reference programs record whether its foot point is inside the box (tracker 1), outside in y only (2), in x only (3) or in both (4) and the cell that encloses it, with border cells 0 or n-2 in an axis that was left (unless both were). The update then sets value and gradient of that node only: tracker 1 from the interpolant of the old fields in that cell at the foot point, the gradient transported by the chosen scheme; tracker 2 and 3 from the interpolant along the border with an upwind correction across it and a Heun step for the tangential gradient; tracker 4 by an Eulerian step of the value; other codes leave the node alone. Old fields, mixed derivatives, and columns outside a given column range are not changed. (The interior cell search of the CUDA kernel is excluded.)",
  ['inputs','histories'],'all grids, foot points, field contents, column ranges',
  'No test touches the reference programs.',
  [R+'AdvectionPointCalcs.h',R+'SerialCode/AdvectionPointCalcs.h',R+'CUDA/AdvectionPointCalcsCUDA.cu'],[('find_advection_point_location*, update_levelset_data*','src/reference')],['cellx, celly, tracker, tempphi, temppsix, temppsiy'])
p('C35','Reference mixed derivatives are centred inside and one-sided at corners',
  "At every interior node the reference programs set the mixed derivative to the average of the x-difference of psiy and the y-difference of psix (central), at edge nodes to the central difference along the edge, and at corner nodes to 3/4 of the sum of the two one-sided differences on the cell edges meeting there minus 1/4 of the sum on the opposite edges; psix and psiy are not changed, and with a column range exactly those columns are written.",
  ['inputs'],'all grids of at least 3 x 3 nodes, field contents, column ranges',
  'No test touches the reference programs.',
  [R+'AdvectionPointCalcs.h',R+'SerialCode/AdvectionPointCalcs.h',R+'CUDA/AdvectionPointCalcsCUDA.cu'],[('update_mixed_derivatives*','src/reference')],['temppsixy'])
p('C36','Parallel reference programs share no scratch data and send what they mean to send',
  "In the OpenMP regions of the reference headers no thread writes a variable that the other threads of the team share (only field elements of its own iterations and private temporaries), and the iterations are divided among the threads, so the result does not depend on the schedule or thread count; every MPI message of the MPI programs is sent and received with the datatype of its buffer's elements.",
  ['schedules'],'all thread counts, schedules and interleavings',
  'No test touches the reference programs; races do not show on one core.',
  [R+'AdvectionPointCalcs.h',R+'GALS_Advection_OpenMP.cpp',R+'GALS_Advection_MPI.cpp',R+'GALS_Advection_MPI_OpenMP.cpp'],[('omp parallel regions, MPI_Send/MPI_Recv','src/reference')],['shared variables, message datatypes'])
p('C37','The reference programs march, keep and print one consistent state',
  "For every choice of settings (box, node counts, step, final time, output interval; for CUDA node counts that are multiples of the tile size) the serial, OpenMP and CUDA reference programs start from the initial bell on nodes that span the box and print it once at time 0; then they take floor(Tfinal/dt) passes. Pass t traces the foot points, locates them, updates the level set and recomputes the mixed derivative, each exactly once, in this order, for all nodes (CUDA: one thread per node), with the time index t, the configured step, period, limits, counts and spacings, and each on the untouched results of the one before; the update starts from and reads the fields the previous pass produced; all arrays have one element per node; at the end of the pass the old fields equal the new ones. The state after pass t is printed with time (t+1) dt exactly when t+1 is a multiple of the output interval (the number of passes if only the first and last state are wanted): value, both derivatives and mixed derivative as they are at that moment.",
  ['histories','inputs'],'all settings, all passes, all nodes',
  'No test touches the reference programs; the CUDA program cannot run here at all.',
  [R+'SerialCode/GALS_Advection.cpp',R+'GALS_Advection_OpenMP.cpp',R+'CUDA/GALS_Advection.cu'],[('main','src/reference')],['phi, psix, psiy, psixy and the printed fields'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
