# id, title, statement, over, q, why, files, mech, tech, note
EX = 'explicit-state exploration of the real code: '
T = 'Trusted: the reference model in the harness, g++/ASan, the small-scope hypothesis beyond the bounds. '
PROPS = [
dict(id='P01', title='Every index of a grid addresses its own element, in the documented order',
 statement='For every rank, lower/upper bound pair, way of constructing or resizing a grid and every storage kind, the grid reports exactly the requested bounds and every index inside them denotes exactly one element, distinct from all others, that reads back what was last written to it through any form of access (index array, index list, const or non-const, checked or unchecked, array expression, iterator). Contiguous row-major and column-major storages additionally lay the elements out in precisely that order in their raw data.',
 over=['inputs', 'configurations'], q='all index boxes up to the stated extents with lower bounds that are negative, zero, positive and near the integer limits, ranks 1-10, all storages, all construction paths; grids of more than 2^31 and 2^32 cells at the corners, centres and edges of each direction',
 why='The suite uses a few random box sizes with lower bounds near zero; aliasing between two elements in one particular shape/bound combination or one access form is not sampled.',
 files=['src/grid/grid.hpp', 'src/grid/grid.t', 'src/grid/gridstorage/single-array-storage-base.hpp', 'src/grid/gridstorage/single-array-allocation.hpp', 'src/grid/gridstorage/kokkos-storage.hpp'],
 mech=[('offset of an index from the raw data pointer, updated on allocation', 'SingleArrayGridCOrderStorageBase::get / SingleArrayGridFortranOrderStorageBase::get'), ('storage iterators', 'single-array-storage-base.hpp'), ('Kokkos view with shifted origin', 'KokkosGridStorage')],
 tech=EX+'all boxes x construction paths x access forms', note='All boxes with extents up to 4-6 (rank 1,2), 3 (rank 3,4), 2 (rank 5-10) and lower bounds in {-2,0,3,+-2e9}; every element is written through one form and read through all others; ASan watches every access. '+T),
dict(id='P02', title='Grids that share storage stay consistent through every history',
 statement='A copied or assigned grid refers to the same elements as its source: whatever sequence of construction, copy, assignment, resizing, writing and destruction is applied to a family of grids, all grids sharing storage report the same bounds and contents, grids that do not share never influence each other, and a grid assigned to stops referring to (and keeping alive) what it held before. The elements live exactly as long as some grid refers to them.',
 over=['histories'], q='all operation sequences up to depth 5-6 over three handles and two shapes, for row-major, column-major, lazily resized and Kokkos storage; long resize histories around the grow/shrink thresholds of the lazy storage',
 why='The suite exercises single copies and single resizes; use-after-free, double free, stale bounds and leaks need specific sequences of several operations on several handles.',
 files=['src/grid/gridstorage/single-array-allocation.hpp', 'src/grid/gridstorage/single-array-storage-base.hpp', 'src/grid/gridstorage/kokkos-storage.hpp', 'src/grid/grid.t'],
 mech=[('shared pointer to the allocated data plus a weakly linked update list that re-synchronises the handles after a resize', 'SingleArrayInstantAllocation / SingleArrayLazyAllocation'), ('statistics driven re-allocation', 'SingleArrayLazyAllocation')],
 tech=EX+'all operation histories against a reference-counted buffer model', note='Every history up to depth 5 (quick) / 6 (thorough) with three handles; an element type that counts instances decides leaks and double destruction, ASan decides stale pointers. '+T),
dict(id='P03', title='Whole-grid fill, addition and subtraction act element-wise on exactly the grid',
 statement='Assigning a value sets every element of the grid to it; adding or subtracting another grid (of any element type and storage kind, including itself or a grid sharing its storage) changes every element of the left grid by the element at the same index of the right grid, leaves everything else untouched and does not change the right grid.',
 over=['inputs', 'configurations'], q='all boxes up to the stated extents, all pairs of storage kinds and element types, every padding of a larger right operand, sequences of up to three operations',
 why='The suite combines equally stored random grids; mismatched storage orders and larger right operands take other code paths.',
 files=['src/grid/grid.t', 'src/grid/grid.hpp'], mech=[('index-wise or storage-wise combination chosen by storage type', 'GridBase::operator+= / operator-= / operator=')],
 tech=EX+'all boxes x storage pairs x operation sequences', note='Extents up to 4 per dimension (rank 1,2) and 2 (rank 3). '+T),
dict(id='P04', title='Checked grids and arrays let no out-of-range access through',
 statement='A grid or array with asserting checks stops the program on every access outside its bounds, in every dimension and for every access form, and never on one inside; a grid with debugging checks redirects each out-of-range access to the nearest element inside, raises its error flag and reports the index and dimension of the latest offence, and never raises the flag for an access inside.',
 over=['inputs', 'configurations'], q='all small boxes and every index within two cells outside and inside of them in ranks 1-3, corner and single-dimension violations in ranks 4, 5, 7 and 10, every access form, all storage policies',
 why='The suite tests a handful of indices of one shape and cannot observe an abort.',
 files=['src/grid/gridcheck.hpp', 'src/grid/arraycheck.hpp', 'src/grid/grid.t', 'src/grid/array.t'], mech=[('range tests in the checking policies', 'GridAssertCheck, GridDebugCheck, ArrayAssertArgCheck')],
 tech=EX+'all boxes x indices x access forms, aborts observed in forked children', note='Boxes with extents 1-3 and indices up to two outside. '+T),
dict(id='P05', title='Ranges visit each of their positions exactly once; range algebra is exact',
 statement='Iterating over a rectangular range, with its iterators or with any of the serial or Kokkos iteration policies, visits every integer position of the range exactly once, in the documented order for the ordered policies, and nothing else, including for single-cell and empty ranges. Membership, growing, copying and projecting a range are exact.',
 over=['inputs', 'configurations'], q='all ranges with extents from -1 up to 5 in ranks 1-4, small extents in ranks 5-10, several lower corners, each with every policy; all positions up to two cells outside for membership, growing in every single dimension',
 why='Tests iterate over a few non-degenerate random boxes.',
 files=['src/grid/range.hpp', 'src/grid/iteration/range-iteration.hpp', 'src/grid/iteration/kokkos-iteration.hpp'], mech=[('odometer increment', 'Range::iterator'), ('nested compile-time loops', 'RangeCIterationPolicy, RangeFortranIterationPolicy'), ('MDRangePolicy', 'RangeKokkosIterationPolicy')],
 tech=EX+'all ranges x policies against a reference enumeration', note='Kokkos is explored with its serial execution space only. '+T),
dict(id='P06', title='Array expressions equal element-wise arithmetic',
 statement='Every arithmetic expression over fixed-length arrays and scalars (sums, differences, products, quotients, negation, nested in any way), every compound assignment (also when the target occurs in the expression), comparison, reduction, conversion and projection yields exactly what computing each element separately yields, also when arrays and scalars of different types are combined, and leaves its operands unchanged; an expression keeps its value after the objects it was built from have gone.',
 over=['inputs', 'programs'], q='all operand values from small domains including zero, negative and large values, for a closed set of about fifty expression shapes covering each operator in each operand position, lengths 1-4, integer and floating element types, mixed checking policies; every operator between sub-expressions, arrays and scalars of different types',
 why='Tests evaluate some expressions on random values; the expression templates are distinct code per operand kind and position.',
 files=['src/grid/array.hpp', 'src/grid/array.t', 'src/grid/arrayexpression.hpp'], mech=[('expression templates', 'arrayexpression.hpp'), ('element-wise evaluation', 'Array::operator=')],
 tech=EX+'all small operand values x all expression shapes', note='Expression shapes are enumerated up to two nested operators per operand position. '+T),
dict(id='P07', title='A sub-grid is an exact read/write window onto its base grid',
 statement='For every base grid and every window inside it, the sub-grid reports the window as its bounds, reads and writes through it reach exactly the base elements at the same indices and no others, changes of the base show through at once, and iteration, whole-grid combination, copying, re-targeting and windows of windows keep these guarantees. With a checking policy on the window or its base, an access outside the window is stopped (asserting checks) or redirected to the nearest cell of the window (debugging checks).',
 over=['inputs', 'histories'], q='all base boxes up to the stated extents, all windows inside them, all construction/resizing paths; all positions in and around windows with checking policies',
 why='There is no test of sub-grids in the suite.', files=['src/grid/subgrid.hpp', 'src/grid/subgrid.t', 'src/grid/boundary.hpp'], mech=[('sub-grid storage forwarding to the base grid', 'SubGridStorage'), ('window iterators', 'SubGridStorage::storage_iterator')],
 tech=EX+'all base boxes x windows x construction paths', note='Extents up to 6 (rank 1), 4 (rank 2), 2 (rank 3). '+T),
dict(id='P08', title='A transformed grid always shows the transformation of the current base values',
 statement='A transformed view of a grid has the bounds of its base, and every read, through index or iterator, yields the current transformation applied to the current base value, in the value type of the transformation, whatever changes of base values, base extent, base grid and transformation happened before, also through iterators obtained before values or transformation changed and when several elements are read at the same time; with asserting checks an access outside the box is stopped.',
 over=['inputs', 'histories'], q='all boxes up to the stated extents, all sequences of three changes (new transformation, base written, resized or replaced, combined with another grid, copied) with iterators kept across them',
 why='There is no test of transformed grids in the suite.', files=['src/grid/gridtransform.hpp', 'src/grid/gridtransform.t'], mech=[('transforming accessor and iterators', 'GridTransform storage')],
 tech=EX+'all boxes x all change sequences', note='Reads by value only; writing through a transformed view is not claimed. '+T),
dict(id='P09', title='Field coordinates: ghost layout, cell positions and position lookup agree',
 statement='A field created, resized, copied or assigned with an inner index range, physical domain, staggering and ghost cell number stores exactly the inner range extended by the ghost cells on every side and reports inner range, domain and staggering faithfully. Grid index i of the inner range lies at the lower domain bound plus i (plus one half when staggered) cell widths, ghost cells continue this spacing, and looking a position up gives the index of the grid point to its left and the fractional distance from it.',
 over=['inputs', 'configurations'], q='all inner ranges up to the stated extents with different lower corners, ghost numbers 0-3, domains, every staggering, every construction path',
 why='Tests cover a few positions of one zero-based field.', files=['src/grid/field.hpp', 'src/grid/field.t'], mech=[('linear map between index and position', 'Field::indexToPosition / positionToIndex')],
 tech=EX+'all field geometries x all cells x representative in-cell positions', note='Comparison tolerance 1e-9 of a cell; positions exactly on a grid point may be assigned to either side by rounding. '+T),
dict(id='P10', title='Ghost, source and inner regions of a boundary tile the domain correctly',
 statement='For every domain and ghost width, the ghost regions of each face, the inner region and the source regions lie inside the domain where they should: the ghost region of a face is the outermost layer of ghost width across the full face, the source region is the equally thick layer directly inside it, the inner region is the domain without all ghost layers, and inner plus ghost regions cover the domain completely; for a quantity staggered in the face direction the boundary region at the lower face leaves out its innermost layer. Sub-grids obtained for a boundary show exactly these cells of the grid.',
 over=['inputs', 'configurations'], q='all domains up to the stated extents, ghost widths 0-3, all faces, both staggerings, ranks 1-3',
 why='Tests check one cube.', files=['src/grid/boundary.hpp', 'src/grid/boundary.t'], mech=[('range arithmetic per face', 'Boundary::getGhostDomain / getGhostSourceDomain / getGhostInnerDomain / getBoundaryDomain')],
 tech=EX+'all domains x ghost widths x faces', note='Domains large enough to hold their ghost layers. '+T),
dict(id='P11', title='Filling a field stores the setup expression at every grid point position',
 statement='After a field has been filled from a setup-file quantity, every grid point including the ghost cells holds the value of the expression, with all intermediate variables it uses, at the physical position of that grid point and at the current values of the other independent parameters; nothing else changes. Filling again, with the same or another quantity or field, gives the same as filling for the first time. A field filler fills exactly the fields given to it, each from its own quantity, as often as it is asked; separate fillers do not affect each other.',
 over=['inputs', 'histories', 'configurations'], q='all inner sizes up to 5 (1d), 3x3, 2x2x2, lower corners, domains, staggerings, ghost widths; eight setup files with direct, indirect, nested, constant and default quantities; all pairs of fills; all sequences of five (thorough six) add/fill/clear operations on two fillers; both memory orders and the lazy storage',
 why='There is no test of filling; a wrong position, stale intermediate or skipped cell depends on the combination of geometry, expression and history.',
 files=['src/tools/fieldtools.hpp', 'src/tools/fieldtools.t', 'src/grid/field.t', 'src/variables/dependencies.cpp'],
 mech=[('loop over all grid points', 'fill_field'), ('collection of fill operations', 'FieldFiller'), ('re-evaluation in dependency order', 'DependencyUpdater')],
 tech=EX+'all geometries, expressions and fill sequences against direct evaluation', note=T),
dict(id='P12', title='Serial subdivision behaves as one periodic process',
 statement='On a single process, exchanging a grid fills every ghost cell with the value of its periodic image, one direction or all directions at a time, accumulating makes each ghost cell and its periodic source hold the sum of both, and neither changes any other cell. Exchanging a data buffer delivers an independent copy of the sent bytes, reductions return their argument, and the reported local, inner and physical extents are those of the whole domain.',
 over=['inputs', 'histories'], q='all domains up to the stated extents, ghost widths 0-3, all pairs of consecutive operations, all short buffer histories',
 why='No test exercises the subdivision classes.', files=['src/grid/domainsubdivision.hpp', 'src/grid/domainsubdivision.t', 'src/grid/boundary.t'], mech=[('copy between ghost and source ranges', 'SerialSubdivision::exchange / accumulate'), ('buffer copy', 'SerialSubdivision::exchangeData')],
 tech=EX+'all domains x ghost widths x operation pairs against a periodic reference', note='Inner extent at least the ghost width (twice for accumulation). '+T),
dict(id='P13', title='Parallel decomposition partitions the global domain among the processes',
 statement='For every number of processes, global index range (whatever its lower bound) and ghost width that can be divided, the local inner domains of all processes together contain each global cell exactly once and their widths in each direction differ by at most one cell; the local domain is the inner domain plus the ghost cells, and the physical extent is the matching share of the global extent. Each process reports the global domain, a unique number and location-based identifier, exactly one is master, and the boundary flags are set exactly on the processes touching that side of the global domain, no matter how ranks are reordered; the diagnostic manager is told this number and role. Initialising again gives the same as initialising for the first time, and no communicator stays in use afterwards.',
 over=['configurations', 'inputs'], q='all process counts up to 9-16, global sizes from a dense small set up to 1000, lower bounds negative/zero/positive, ghost widths 0-3, rank 1-3, three rank orders',
 why='The suite is built without message passing; running with it samples one process count and size.', files=['src/grid/mpisubdivision.t', 'src/grid/mpisubdivision.hpp', 'src/grid/domainsubdivision.hpp', 'src/util/factor.cpp'], mech=[('process grid and local ranges', 'MPICartSubdivision::init'), ('physical extent', 'DomainSubdivision::getInnerExtent')],
 tech=EX+'all decompositions, every rank executed on a simulated message-passing layer', note='Configurations with more processes than can be divided over the cells are excluded. The simulated layer (harness/fakempi.cpp) is trusted to follow the MPI standard. '+T),
dict(id='P14', title='Parallel ghost exchange delivers the neighbour value to every ghost cell',
 statement='After an exchange in one direction every ghost cell of that direction holds the value the corresponding cell of the neighbouring process (periodically wrapped around the global domain) had before, and no other cell changes; after exchanging all directions every ghost cell, corners included, equals the owning cell. This holds for every element type, number of processes, schedule of the processes and buffering of messages.',
 over=['schedules', 'configurations', 'inputs'], q='all interleavings of all ranks at message granularity for 1-6 processes with buffered and synchronous sends; all process counts/sizes/ghost widths of the sweep under fixed schedules; all supported element types; local domains of more than 2^31 cells',
 why='The suite is built without message passing.', files=['src/grid/mpisubdivision.t', 'src/grid/mpisubdivision.cpp', 'src/grid/boundary.t'], mech=[('pack, pairwise send-receive, unpack', 'MPICartSubdivision::exchange'), ('element type mapping', 'MpiValueType')],
 tech=EX+'stateful exploration of all process interleavings on a simulated message-passing layer, plus exhaustive configuration sweep', note='Local inner width at least the ghost width. Ranks are fibers of one process, so global variables of the library are shared between ranks. '+T),
dict(id='P15', title='Parallel accumulation sums every shared cell exactly once',
 statement='After accumulating in one direction, every cell that lies in the ghost layer of one process and in the interior of its neighbour holds, on both, the sum of the two values, and all other cells are unchanged; after accumulating all directions every copy of a cell, corners included, holds the sum over all copies. This holds for every element type, process count, schedule and message buffering.',
 over=['schedules', 'configurations', 'inputs'], q='as for the ghost exchange',
 why='The suite is built without message passing.', files=['src/grid/mpisubdivision.t', 'src/grid/domainsubdivision.hpp'], mech=[('two forth-and-back send-receive rounds', 'MPICartSubdivision::accumulate')],
 tech=EX+'stateful exploration of all process interleavings on a simulated message-passing layer, plus exhaustive configuration sweep', note='Local inner width at least twice the ghost width. '+T),
dict(id='P16', title='Packed data reaches exactly the neighbour it is addressed to, unaltered',
 statement='Packing any number of objects (none included) into a buffer and unpacking yields the same objects in the same order. Exchanging buffers with positive orientation delivers to each process exactly the bytes its lower neighbour sent, with negative orientation those of its upper neighbour, whatever the individual lengths; the send buffers are not changed and later reuse of them does not affect received data.',
 over=['inputs', 'configurations', 'histories'], q='all length combinations from {0,1,6} over up to four processes, all directions and orientations, two consecutive exchanges with and without reused buffers, buffered and synchronous sends, three rank orders',
 why='No test exercises buffers.', files=['src/util/databuffer.hpp', 'src/util/databuffer.t', 'src/grid/mpisubdivision.t'], mech=[('length exchange followed by payload exchange', 'MPICartSubdivision::exchangeData'), ('packing', 'DataBuffer')],
 tech=EX+'all length/direction combinations, every rank executed on a simulated message-passing layer', note=T),
dict(id='P17', title='Reductions give every process the exact global result',
 statement='Sum, average, maximum and minimum reductions, for integer and floating values, return on every process the sum, mean (truncated for integers), maximum or minimum of the values of all processes, for every combination of values, process count and schedule.',
 over=['inputs', 'schedules', 'configurations'], q='all value tuples from a small signed domain for 1-5 processes, all interleavings for 2-4 processes',
 why='No test exercises reductions.', files=['src/grid/mpisubdivision.t', 'src/grid/domainsubdivision.hpp'], mech=[('collective reduction', 'MPICartSubdivision::sumReduce / avgReduce / maxReduce / minReduce')],
 tech=EX+'all value tuples and all interleavings on a simulated message-passing layer', note='Values are exactly representable, so the order of floating point summation does not matter. '+T),
dict(id='P18', title='The process grid is a valid factorisation with minimal cut surface',
 statement='For every number of processes and domain shape, the computed process grid has one positive factor per direction whose product is the number of processes, and no other such factorisation has a smaller total cut surface (sum over directions of factor divided by domain size).',
 over=['inputs'], q='all process counts up to 300/200/96/48 for 1/2/3/4 directions and all shapes from a set of sizes between 1 and 1000',
 why='No test exercises the factorisation.', files=['src/util/factor.cpp', 'src/util/factor.hpp'], mech=[('exhaustive distribution of prime factors', 'equalFactors / distribute')],
 tech=EX+'all process counts x shapes against brute-force enumeration of factorisations', note=T),
dict(id='P19', title='Any common sequence of subdivision calls completes on all processes',
 statement='If all processes perform the same sequence of exchanges, accumulations, buffer exchanges and reductions, then under every schedule, with synchronous as well as buffered message delivery, all of them finish, every message is received by the operation it was sent for, no message is left over, and the final data equals that of executing the operations one after the other.',
 over=['schedules', 'programs'], q='all operation sequences of length 2 (3 in the thorough tier) over all operations, all interleavings at message granularity, 1-4 processes, synchronous and buffered sends',
 why='Deadlocks and cross-matched messages depend on timing and on message size thresholds of the MPI library.', files=['src/grid/mpisubdivision.t'], mech=[('symmetric send-receive pairs with directed neighbours', 'MPICartSubdivision')],
 tech=EX+'stateful exploration of all interleavings of all short programs; deadlock = no enabled rank', note=T),
dict(id='P20', title='Deck expressions evaluate to their mathematical value',
 statement='Every expression in a setup file evaluates to the value given by the usual rules: power binds stronger than unary minus and plus, these stronger than multiplication and division, these stronger than addition and subtraction; chains of equal precedence associate to the left whatever mixture of types they contain; int is promoted to float and any type to string where mixed, int operands are computed in int. The result does not depend on the length or nesting of the expression nor on whether its parts are literals, constants, variables, function calls or run-time parameters, and an expression that involves run-time parameters yields the value for their current contents each time it is evaluated. Division of an int by zero, division that overflows and conversions that are impossible are reported as an error.',
 over=['inputs', 'programs'], q='all operator/operand/type/bracket combinations of up to three binary operators, operand kinds per position, chains and nestings up to several hundred terms',
 why='The suite evaluates a few dozen random expressions of one shape and one type.',
 files=['src/parser/deckgrammar.inc', 'src/parser/parsercontext.hpp', 'src/parser/parsertoken.cpp', 'src/variables/expression.hpp', 'src/parser/parsertoken.t', 'src/variables/operators.hpp', 'src/variables/types.hpp'],
 mech=[('LALR grammar building a typed expression tree', 'deckgrammar.inc'), ('constant folding and deferred evaluation', 'expression.hpp'), ('promotion of operand types', 'parsertoken.t, operators.hpp')],
 tech=EX+'all expressions of a bounded grammar against an independent evaluator', note='Overflow of int sums and products is excluded. '+T),
dict(id='P21', title='The meaning of a deck is independent of its layout and token lengths',
 statement='White space, line ends, comments and their position, the length of names, strings, numbers and comments, and the way the input stream delivers its bytes never change what a setup file means: every layout of the same token sequence gives the same variables, values, blocks and errors. Characters that are not part of the language and comments that are never closed are reported.',
 over=['inputs'], q='all separators between all tokens of a set of decks, all token lengths up to several times the scanner buffer around its boundaries, all deliveries of the stream in pieces, every byte value in every lexical position',
 why='The suite parses files of one layout; scanner buffers are larger than any test token.',
 files=['src/parser/deckscanner.hpp', 'src/parser/deckscanner.cpp', 'src/parser/parsertoken.cpp', 'src/parser/parser.cpp', 'src/parser/deckgrammar.inc'],
 mech=[('hand written tokenizer with refill buffer', 'DeckScanner'), ('token objects', 'ParserToken')],
 tech=EX+'all layouts x decks, all lengths around buffer sizes, compared with the canonical layout', note=T),
dict(id='P22', title='Malformed decks are rejected with the right error and line, valid ones accepted',
 statement='A setup file is accepted exactly if it follows the grammar and every name, type and block it mentions is known where it is used. Otherwise parsing ends with an error of the matching kind that names the line at which the file stops being valid; nothing else happens: no crash, no hang, no partial acceptance, whatever the file contains and wherever it ends. Parsing a file and dropping the result, accepted or not, loses no memory (definitions that refer to themselves aside).',
 over=['inputs'], q='all token sequences up to the stated length over the whole token alphabet; all truncations, single-token deletions, insertions, replacements and swaps of representative decks',
 why='The suite checks a handful of hand-written bad inputs.',
 files=['src/parser/parser.cpp', 'src/parser/deckgrammar.inc', 'src/parser/parsercontext.hpp', 'src/util/exceptions.hpp', 'src/variables/variables.cpp'],
 mech=[('grammar actions throwing ParserError / VariableNotFoundException', 'deckgrammar.inc, parsertoken.cpp')],
 tech=EX+'all token sequences up to a bound and all single-token mutations, against an independent recursive-descent parser', note='The line is compared for errors of the grammar and of names; the wording of messages is not part of the property. '+T),
dict(id='P23', title='Names, scopes, assignments and conversions in decks resolve as declared',
 statement='A name used in a setup file denotes the variable declared in the innermost enclosing block that has it, a path denotes the variable of that block, declarations never leak out of their block, and each assignment is converted to the declared type of its target and is visible to everything that follows and to nothing that precedes. Through the program interface, existence tests and lookups (by name, path, block, child, local or inherited) agree with each other and with the file, and assigning a predefined constant or an undeclared name is an error.',
 over=['programs', 'inputs'], q='all statement sequences up to the stated length over declarations, assignments, uses, block openings and closings; all lookups of all names and paths from all blocks; all histories of five (thorough seven) operations building the tree of blocks and variables from the program',
 why='The suite declares and reads back variables in a single fixed deck.',
 files=['src/variables/variables.cpp', 'src/variables/variables.hpp', 'src/parser/parsercontext.hpp', 'src/parser/deckgrammar.inc'],
 mech=[('nested variable maps with cursor', 'BlockVariables, VariableStorage'), ('conversion on assignment', 'ParserToken::assignVar')],
 tech=EX+'all short programs against an independent interpreter', note=T),
dict(id='P24', title='Updating dependents always leaves them equal to their definition',
 statement='After the independent variables have changed, an update recomputes every registered dependent, so that it and the variable bound to it equal its definition evaluated with the current independent values, for every dependency graph, every order of definition, registration and change, every history of updates and any number of updaters on the same variables. Independent variables, and parameters that are not or no longer registered as dependents, keep the value the program gave them. Circular definitions are reported instead of evaluated.',
 over=['histories', 'programs'], q='all dependency graphs over three dependents with up to nine definitions each in all orders with all registration subsets; chains through local variables, blocks, types and functions; all formulas of up to three terms in which each variable is reachable through one place only; all histories of registrations, changes and updates up to depth 5-6',
 why='The suite updates a few fixed formulas in a fixed order; staleness depends on graph shape and history.',
 files=['src/variables/dependencies.cpp', 'src/variables/dependencies.hpp', 'src/variables/expression.hpp', 'src/variables/blockparameters.cpp'],
 mech=[('dependency map and topologically ordered update list', 'DependencyMap::makeUpdateList'), ('cached update list per registration', 'DependencyUpdater::update')],
 tech=EX+'all graphs and all operation histories against a reference evaluator', note='Independents that changed but are not registered with the updater are outside the property. '+T),
dict(id='P25', title='Block parameters receive their deck value, default, or a missing-value error',
 statement='Each parameter registered by a block is set, with conversion to its type, to the value last assigned to it in the setup file, otherwise to its default; a parameter without either is an error naming it, and so is registering a name twice in one block. Read-only parameters and constants can be used but not assigned in the file. Parameters of a block are visible in nested blocks unless hidden there, array parameters consist of one parameter per component, and group membership is exact, also after the parameters have been assigned.',
 over=['inputs', 'programs'], q='all deck sequences of up to four assignments, all subsets of required parameters at all levels, all nestings up to five statements, all groups and queries of four parameters',
 why='The suite sets parameters of one flat block.',
 files=['src/variables/blockparameters.cpp', 'src/variables/blockparameters.hpp', 'src/variables/block.cpp', 'src/parser/parsercontext.hpp'],
 mech=[('parameter objects bound to variables, evaluated after parsing', 'BlockParameters::evaluate'), ('parameter groups', 'ParametersGroup')],
 tech=EX+'all short decks over a parameter vocabulary against an independent interpreter', note=T),
dict(id='P26', title='Functions in decks are called with the converted arguments of each call',
 statement='A function registered with the function registry of a parser or defined by the standard set (under each name the one registered last), when used in a setup file, returns exactly what the registered function returns for its arguments converted to the declared parameter types, for every number of parameters, every combination of argument and result types, nested and repeated calls, literal, variable and run-time arguments; it is called again with current arguments whenever the expression is evaluated. Wrong argument counts, unknown functions and impossible conversions are reported.',
 over=['inputs', 'programs'], q='all signatures of up to three parameters over int/float/string, arity up to ten, all argument kinds, nestings up to depth three, all standard functions on a value grid',
 why='The suite calls each function with one kind of argument.',
 files=['src/variables/function_expression.hpp', 'src/functions.cpp', 'src/variables/expression.hpp', 'src/parser/parsercontext.hpp', 'src/parser/deckgrammar.inc'],
 mech=[('argument fetching and typed call', 'FunctionExpression / FunctionRegistry')],
 tech=EX+'all signatures x argument kinds against direct calls of the same functions', note=T),
dict(id='P27', title='Initialisation runs phase by phase over the whole block tree, once per block',
 statement='For every block tree, whichever of its blocks initialisation is started on, every block gets exactly one call of each phase, in the order parameters, register data, pre-initialise, initialise, post-initialise; each phase is finished on all blocks, parents before children and children in file order, before the next begins, and parameter values are available from the first phase after the parameters.',
 over=['histories', 'configurations'], q='all block trees with up to six (thorough seven) blocks, all subsets of blocks without a class, every starting block; chains, stars and combs of up to 260 blocks',
 why='The suite initialises one small tree.',
 files=['src/variables/block.cpp', 'src/variables/block.hpp', 'src/variables/blockclasses.cpp'],
 mech=[('recursive phase traversal', 'Block::initAll')],
 tech=EX+'all trees x starting blocks, full call log compared', note='Initialisation is started once per simulation. '+T),
dict(id='P28', title='The block objects mirror the blocks of the file',
 statement='For every setup file exactly one object is created per block whose class has an implementation, with its name, the object of the nearest enclosing implemented block as parent, and its children in file order; typed containers list exactly the direct children of their type in file order; blocks are only accepted inside blocks whose class allows them. All objects live as long as the simulation is referenced, and are destroyed with it.',
 over=['configurations', 'inputs'], q='all trees with up to five (thorough six) blocks and all assignments of four classes, named and unnamed; all nesting relations over three classes with all block sequences up to length four (five)',
 why='The suite builds one or two fixed trees.',
 files=['src/variables/block.cpp', 'src/variables/blockclasses.cpp', 'src/variables/blockcontainer.hpp', 'src/parser/parsercontext.hpp'],
 mech=[('tree cursor following the parser', 'BlockTree'), ('class registry', 'BlockClasses'), ('self registration in the parent container', 'ChildBlock::preInit')],
 tech=EX+'all trees and nesting relations against a reference tree', note=T),
dict(id='P29', title='Shared block data is found by the documented lookup, with the right type',
 statement='Data exported by a block under a key is found from any block by that key: first in the block itself, then outwards through its enclosing blocks, with a path prefix selecting named descendants of the block searched, and else anywhere in the simulation; the object delivered is the very one that was exported (last, if the block exported several under the key), only when the requested type is the exported one, and otherwise an error is reported. Simulations in the same program do not see the data of each other.',
 over=['configurations', 'inputs'], q='all trees up to five (six) blocks, all sets of exporting blocks, all keys and paths of a vocabulary from every block, coinciding names',
 why='The suite retrieves one key in one tree.',
 files=['src/variables/blockdata.hpp', 'src/variables/block.hpp', 'src/variables/block.cpp'],
 mech=[('per-type maps keyed by block id', 'BlockData'), ('outward search', 'Block::retrieveData')],
 tech=EX+'all trees x exports x lookups against a reference search', note=T),
dict(id='P30', title='Diagnostics write exactly when and where the setup file asks',
 statement='Executing the diagnostic manager makes an interval diagnostic write exactly at the steps that are multiples of its interval and at the final (negative) step, and a time based diagnostic at the first execution at or after each due time (delay plus multiples of deltaTime, at most one output per execution). In the file name #t stands for the step, \'final\' or the number of the output, and #p for the process. Without append each output is open, write, close; with append the file is opened once and never again. Diagnostics with a single output write on the master process only. The adjusted time step never exceeds the given one nor the next output time, and is no shorter than that requires, on every process, whether it writes or not. A missing time source is reported, only existing diagnostics are executed, and the files hold the values at the output times once the simulation is gone.',
 over=['histories', 'configurations', 'inputs'], q='all histories of three to four (thorough five) executions over all kinds of up to two diagnostics, append modes, file name patterns, processes, start steps, normal/repeated/skipped/final steps; long runs for all intervals up to 9 (14) and ten time distances; all histories of five (six) changes of time source, master flag, process number and time; all create/destroy/execute sequences of length six (seven)',
 why='The suite has no test of the diagnostic manager; what is due depends on the whole history of executions.',
 files=['src/diagnostic/diagnostic.cpp', 'src/diagnostic/diagnostic.hpp', 'src/diagnostic/diagnostic.t'],
 mech=[('registry and execution of diagnostics', 'DiagnosticManager'), ('due times and file handling', 'IntervalDiagnostic/DeltaTimeDiagnostic'), ('text output', 'SimpleFileDiagnostic')],
 tech=EX+'all execution histories against a reference schedule', note=T),
dict(id='P31', title='HDF5 files hold the global grid whatever the distribution over processes',
 statement='A grid written by any number of processes, each contributing its inner region, appears in the HDF5 file as one dataset with the global extents in which every cell has the value of the process that owns it, with ghost cells left out, for every rank, element type and storage order, under every schedule, without deadlock. Datasets are named by the block name and a running number, so that several outputs, also appended ones, go into one file; all attributes are stored with the values they had when set. Reading, with the same or another distribution, fills exactly the local region and nothing else. Streams can be reopened, copied, assigned and restricted to a changing subset of the processes; every file is closed and no MPI resource stays in use afterwards.',
 over=['inputs', 'configurations', 'schedules', 'histories'], q='all distributions of small boxes over 1-3 (thorough 4) processes in ranks 1-3, int/float/double, plain and field grids with 0-2 ghost cells, C order, Fortran order and lazily resized storage; two datasets per file, all naming modes and attribute sets, all re-distributions onto two readers; all interleavings for two processes; all histories of four (five) open/write/close/setActive operations on three processes; all ways of constructing, copying and assigning streams; diagnostic and reader blocks',
 why='The suite never writes an HDF5 file, and runs in one process: wrong offsets, missing collective calls and naming conflicts only show with several processes or several outputs.',
 files=['src/diagnostic/hdfdiagnostic.cpp', 'src/diagnostic/hdfdiagnostic.hpp', 'src/diagnostic/hdfdiagnostic.t'],
 mech=[('dataset names and communicators', 'HdfStream'), ('hyperslab selection, collective calls', 'HdfOStream::writeGrid, HdfIStream::readGrid'), ('blocks', 'HDFGridDiagnostic, HDFGridReader')],
 tech='The library runs unmodified on a simulated MPI and a simulated parallel HDF5 that enforces the collective calling rules; explicit enumeration of all configurations, schedules and histories within the bounds, the file contents compared with a reference', note='HDF5 and MPI are replaced by models (harness/fakeh5.cpp, harness/fakempi.cpp) of the calls the library makes. Copies of open streams and builds without parallel HDF5 are not covered. '+T),
dict(id='P32', title='Every literature reference added is written once, complete and correct',
 statement='A literature reference of any kind carries exactly the fields given to its constructor or setters, under their own names, and its publication type, also after copying and assignment. After any sequence of additions, at any time, the BibTeX output consists of exactly one well-formed entry per key, with the type and fields of the reference first added under it, and the information document, well formed, cites every key exactly once together with every distinct description given for it, and nothing else but the reference to the library itself; title, subtitle and bibliography name are the ones set.',
 over=['inputs', 'histories'], q='all 13 kinds with all numbers of constructor arguments and all subsets of non-empty ones (quick: windows of ten and their complements above 13 arguments), all sequences of up to two (thorough three) setter calls, all type changes; all sequences of three (four) additions over four keys, two descriptions and two contents with output after every step; all pairs (triples) of kinds',
 why='The suite has no test of the literature manager; a reference stored in the wrong field, lost or written twice depends on the kind, the arguments and the history of additions.',
 files=['src/tools/literature.cpp', 'src/tools/literature.hpp', 'src/util/singleton.hpp'],
 mech=[('typed reference constructors and fields', 'LiteratureReference'), ('records by key with description sets', 'LiteratureManager::addReference'), ('output', 'writeBibTex, writeInformation')],
 tech=EX+'all kinds, argument subsets and addition histories; the output is read back by an independent BibTeX reader', note='Subclasses overriding getBibKey are not covered. '+T),
dict(id='P33', title='Text output of arrays and grids shows every element once, in order',
 statement='Writing an array to a stream gives its elements separated by single spaces. Writing a grid or field of rank 1 to 5 gives exactly its elements (with ghost cells) with the first index running fastest, separated by spaces within a row, a newline after each row from rank 2 on and an empty line after each two-dimensional slice from rank 3 on, formatted as the stream asks; an empty grid writes nothing. This holds for every index range, element type, checking and storage policy. The mean of a sequence is its arithmetic mean.',
 over=['inputs', 'configurations'], q='all index ranges with lower bounds from three values and extents from 0 to 3-8 per dimension in ranks 1-5, int and double, two checking policies, C, Fortran, lazily resized and Kokkos storage, fields with 0-2 ghost cells, fresh and resized grids, three stream formats; all arrays and sequences over a few values up to length 5-7',
 why='The suite does not write grids as text; the order and layout must hold for every shape and rank.',
 files=['src/datastream.hpp', 'src/datastream.t', 'src/algo.hpp', 'src/algo.t'],
 mech=[('stream operators per rank', 'operator<<(ostream, Grid)'), ('mean', 'mean')],
 tech=EX+'all shapes within the bounds against a reference formatter', note=T),
dict(id='P34', title='Random numbers stay in range; elementary helpers are exact',
 statement='Whatever values the random number generator of the C library delivers, drand is the delivered value scaled to the interval from 0 to 1 and never outside it, and irand(n) is one of the integers 0 to n-1, namely the one of n equal parts the delivered value falls into. Minimum, maximum, sign functions, vector product, running sums and averages have their mathematical value and change nothing else. Identifiers handed out by Unique never repeat within a class of objects, and a singleton class has one and the same instance throughout the program.',
 over=['inputs', 'schedules', 'histories'], q='all combinations of eleven values of the generator at and around its limits (and 25 equidistant ones) for every call, ranges from 1 to INT_MAX; all operand pairs from small domains with integer and floating types; all sequences of up to four values to average; all sequences of six creations and destructions',
 why='There is no test of these functions, and the results at the limits of the generator occur about once in two thousand million calls.',
 files=['src/functions.cpp', 'src/functions.hpp', 'src/algo.hpp', 'src/util/algohelper.hpp', 'src/util/unique.hpp', 'src/util/singleton.hpp'],
 mech=[('two draws combined into one number', 'drand, irand'), ('running identifier', 'Unique'), ('instance created on first use', 'Singleton::instance')],
 tech=EX+'the generator of the C library is replaced by one whose values are enumerated', note='rand and random are replaced in the harness; a different source of random numbers would only be checked for its range. '+T),
]
NOT_APPLICABLE = []
