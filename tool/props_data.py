ALLIN = "all numbers of components, all sizes of each component, all coefficient values"
prop('C04', 'Composite maps hand each component its own block of one coefficient vector',
 "When coefficients are set on a composed, stacked or summarised map, or adopted from its components at construction, the composite's number of coefficients is the sum over its components and component k works on exactly the k-th consecutive block of the composite's stored vector. Setting coefficients by copy stores a copy of the caller's values, and wrapping stores the caller's array itself, so that later in-place changes are seen by every component.",
 ['inputs', 'configurations'], ALLIN,
 "The tests build composites of two or three equal components; a slip in an offset is invisible when sizes coincide or for the first component.",
 ['src/TriangularMap.cpp', 'src/ComposedMap.cpp', 'src/SummarizedMap.cpp', 'src/ParameterizedFunctionBase.cpp'],
 [('SetCoeffs / WrapCoeffs overrides and constructors', 'src/TriangularMap.cpp, src/ComposedMap.cpp, src/SummarizedMap.cpp'), ('SetCoeffs / WrapCoeffs of the base class', 'src/ParameterizedFunctionBase.cpp')],
 'gated value-flow (SSA) analysis with inductive loop invariants and symbolic prefix sums',
 'Decides the host instantiations for every number and size of components; trusts Kokkos::subview/deep_copy semantics; constructs outside the recognised forms are listed as undecided in the evidence.')
prop('C05', 'Composed and stacked maps apply every component once, in order, at its own input',
 "The value, log determinant, input gradient, coefficient gradient and log-determinant gradients of a composed map are those of its layers applied first to last, each layer evaluated or pulled back at the output of the layers before it, for every number of layers and every checkpoint setting. A stacked (block triangular) map fills each component's own output rows and coefficient rows from the leading inputs that component depends on, and its inverse solves the components in order using the rows already solved. A summarised map evaluates its component at the summary of the leading inputs followed by the last input.",
 ['inputs', 'configurations'], 'all numbers of layers/components, checkpoint settings, dimensions and points',
 "Tests use fixed small stacks with equal layers, where a wrong layer index, a missed swap or a wrong checkpoint often gives the same answer.",
 ['src/ComposedMap.cpp', 'src/TriangularMap.cpp', 'src/SummarizedMap.cpp'],
 [('layer loops, checkpoint store', 'src/ComposedMap.cpp'), ('component loops', 'src/TriangularMap.cpp'), ('summary concatenation', 'src/SummarizedMap.cpp')],
 'gated value-flow (SSA) analysis of buffer contents with inductive loop invariants, compared with the required composition term',
 'Decides the host instantiations for any number of components; component operations are uninterpreted; trusts Kokkos view semantics; unrecognised forms are reported as undecided in the evidence, not as violations.')
prop('C20', 'Basis, bijector and sigmoid accessors describe one function and its derivatives',
 "For every order and point, all accessors of a basis family (all orders at once, one order; values, values with first derivatives, values with first and second derivatives, derivatives alone) return the same functions and their exact first and second derivatives, every requested entry set and none outside written. ProbabilistHermite and PhysicistHermite are the Hermite polynomials He_k and H_k, divided by sqrt(sqrt(2 pi) k!) and sqrt(sqrt(pi) 2^k k!) respectively when normalised, in every accessor; HermiteFunction of orders 0 and 1 is 1 and x, and of order n+2 is exp(-x^2/2) H_n(x) / sqrt(2^n n! sqrt(pi)). The linearised basis equals the inner basis between its bounds and outside them its tangent at the nearer bound (derivative constant, second derivative 0). SoftPlus is log(1+exp x), Exp is exp x, Logistic is 1/(1+exp(-x)); their Derivative, SecondDerivative and Inverse are the derivatives and inverse of Evaluate, and they do not overflow for large arguments whose exact value is finite. Sigmoid1d is the sum of coefficient times sigmoid(width (x - center)), with matching input and coefficient gradients times the sensitivity.",
 ['inputs', 'configurations'], 'all orders, points, bounds, normalisation flags, coefficients, centers and widths',
 'Tests compare a handful of low orders at a few points, with separate expectations per accessor; a recurrence that goes wrong at higher order, one accessor that omits the normalisation, or a wrong tangent side is not sampled.',
 ['MParT/OrthogonalPolynomial.h', 'MParT/HermiteFunction.h', 'MParT/LinearizedBasis.h', 'MParT/PositiveBijectors.h', 'MParT/Sigmoid.h', 'MParT/Utilities/MathFunctions.h'],
 [('recurrences and accessors', 'MParT/OrthogonalPolynomial.h, MParT/HermiteFunction.h'), ('linearisation', 'MParT/LinearizedBasis.h'), ('bijectors and sigmoids', 'MParT/PositiveBijectors.h, MParT/Sigmoid.h')],
 'abstract interpretation of every accessor in a domain of formal expressions (point symbolic, order enumerated) against the family formula and its formal derivatives; interval analysis of magnitudes for overflow',
 'Orders 0..16 are enumerated (0..30 thorough); identity of formulas is decided by polynomial identity testing at 50+ digits; floating-point rounding is not considered.')
prop('C10', 'All operations of a monotone component describe one parameterised map',
 "For every multi-index set (compressed or uncompressed), basis, positive bijector g, quadrature rule, nugget, number of points (zero included), array layout and team size: a MonotoneComponent evaluates T(x) = f(x_1..x_{d-1}, 0) + Int_0^1 x_d (g(d_d f(x_1..x_{d-1}, t x_d)) + nugget) dt, the quadrature rule standing for the integral and f being the expansion sum_k c_k prod_j phi_{m_kj}(x_j). Gradient and CoeffGrad return the sensitivities times the exact derivatives of that value in the point and in the coefficients. LogDeterminant returns the logarithm of the diagonal derivative (the derivative of the value itself in discrete mode, g(d_d f) + nugget in continuous mode), minus infinity where that is not positive, and its coefficient and (continuous mode) input gradients are the exact derivatives of it. Inverse solves, for each point, the component's own value at that point's conditioning inputs against that point's target with default tolerances below 1e-3, and returns not-a-number for not-a-number inputs. The kernels that take coefficients (ContinuousDerivative, DiscreteDerivative, CoeffJacobian, InputJacobian and the mixed Jacobians) use those and report values and derivatives of the same T. MultivariateExpansion returns its values, and sensitivity-weighted input and coefficient gradients, for every output. Every output entry is assigned whatever it held before; points, sensitivities and coefficients are unchanged.",
 ['inputs', 'configurations'], 'all multi-index sets, points, coefficients, sensitivities, nuggets, modes, layouts and numbers of points',
 'Tests compare with finite differences and closed forms for a few small sets, mostly without nugget, in one layout and with zero-initialised outputs; a nugget dropped in one operation, an entry of the cache read one derivative off, or an output accumulated instead of assigned is not sampled.',
 ['MParT/MonotoneComponent.h', 'MParT/MonotoneIntegrand.h', 'MParT/MultivariateExpansionWorker.h', 'MParT/MultivariateExpansion.h', 'src/MultiIndices/FixedMultiIndexSet.cpp', 'MParT/Utilities/KokkosHelpers.h'],
 [('component kernels', 'MParT/MonotoneComponent.h, MParT/MonotoneIntegrand.h'), ('expansion kernels and cache layout', 'MParT/MultivariateExpansionWorker.h, MParT/MultivariateExpansion.h'), ('term tables', 'src/MultiIndices/FixedMultiIndexSet.cpp')],
 'abstract interpretation of the component and expansion kernels in a domain of formal expressions over an uninterpreted basis, bijector and quadrature rule, every output entry compared with the required formula and its formal derivatives',
 'Seven multi-index sets of dimension 1 to 3 (twelve, up to dimension 4, thorough) with 0 to 7 points, both layouts, teams of 1 to 3; identity of formulas is decided by polynomial identity testing at 50+ digits; rounding and the quadrature error are not considered. The input gradient of the discrete log determinant throws by design and is not required.')
prop('C07', 'Parallel kernels are free of data races',
 "In every Kokkos launch of the library (host backend), different iterations work on disjoint data: no two iterations of a parallel_for write the same array element or captured variable without an atomic, and none reads an element that another iteration writes. Per-thread scratch (basis caches, quadrature workspaces) belongs to one iteration; a quadrature object's own workspace is not used inside kernels, and code reachable from kernels keeps no static or global state. Reduction variables are only ever added to, and init and join of a custom reducer zero and add every one of its entries. A scan functor stores results only in its final pass. A random number generator state is drawn from the pool by the iteration that uses it, and given back to the same pool on every path. Results therefore do not depend on the number of threads or the schedule, up to the rounding of sums.",
 ['inputs', 'schedules'], 'all launches, all numbers of points, threads, team sizes and schedules',
 'A race shows up in a test only when the scheduler happens to interleave the colliding iterations, and with the small arrays of the tests it usually does not; whether two iterations can meet in one word is decided by the indices, not by a run.',
 ['MParT/MonotoneComponent.h', 'MParT/MultivariateExpansion.h', 'MParT/MultivariateExpansionWorker.h', 'MParT/Sigmoid.h', 'MParT/Quadrature.h', 'MParT/Utilities/LinearAlgebra.h', 'src/TriangularMap.cpp', 'src/IdentityMap.cpp', 'src/AffineMap.cpp', 'src/AffineFunction.cpp', 'src/MapObjective.cpp', 'src/Distributions/GaussianSamplerDensity.cpp'],
 [('team kernels and scratch', 'MParT/MonotoneComponent.h, MParT/MultivariateExpansion.h'), ('reducers', 'MParT/Utilities/LinearAlgebra.h, src/MapObjective.cpp'), ('generator pool', 'src/Distributions/GaussianSamplerDensity.cpp')],
 'footprint (effect) analysis of every launch: value-flow locations of reads and writes with injectivity of the indices in the iteration, additivity of reduction updates, generator typestate, reachability of static state; team kernels and scans interpreted abstractly with every word logged per iteration',
 'distinct view arguments of one operation are taken not to overlap; GPU-only code is not analysed')
prop('C08', 'Quadrature returns its rule on the accepted segments within its workspace',
 "For every integrand, interval, number of functions, tolerance and (for the adaptive rules) every outcome of the error tests: ClenshawCurtisQuadrature with n points returns the n-point Clenshaw-Curtis rule (Chebyshev extreme points, weights exact for polynomials of degree below n) of every component on the given interval, zero on an empty interval. AdaptiveSimpson and AdaptiveClenshawCurtis bisect: a segment is accepted when its error estimate (fine minus coarse value in the chosen metric: First, NormInf, Norm2 or Norm1) is below the larger of absTol and relTol times the norm of the coarse value and it is at least minSub levels deep, or when it is at the deepest of the maxSub levels (maxSub at least one), otherwise split in halves; the result is the sum of the fine rule (two Simpson panels, or the nested Clenshaw-Curtis rule of the next level) over the accepted segments, which partition the interval. Integration assigns every component of the result whatever it held, uses at most WorkspaceSize() doubles of the workspace (its own or a given one, after SetDim too), reads none of them before storing it, and ends.",
 ['inputs', 'configurations'], 'all integrands, intervals, tolerances, metrics, subdivision limits and patterns of convergence',
 'Tests integrate a few smooth scalar functions with tolerances met after a few splits; another metric, a vector integrand, a right segment two levels down or the deepest level of the workspace is not reached, and writes past the workspace go unnoticed.',
 ['MParT/Quadrature.h'], [('rules and weights', 'MParT/Quadrature.h: ClenshawCurtisQuadrature'), ('subdivision', 'MParT/Quadrature.h: AdaptiveSimpson::Integrate, AdaptiveClenshawCurtis::Integrate'), ('error estimate', 'MParT/Quadrature.h: RecursiveQuadratureBase::EstimateError')],
 'abstract interpretation of the integration loops in a domain of formal expressions over an uninterpreted integrand, partitioned by the pattern of converged segments; access bounds and initialisation of the workspace',
 'Rules of 1 to 9 points, 1 to 3 subdivision levels (all patterns), up to 3 functions; 17 points and 4 levels thorough. Rounding is not considered: that an accepted error estimate bounds the true error is not claimed.')
prop('C14', 'Array sums, products, transposes and reductions compute what they stand for',
 "For one- and two-dimensional arrays of every memory layout the overloads of operator+, operator+= and AddInPlace add entry by entry: + returns a new array and leaves both operands as they were, += and AddInPlace change the left operand in place and nothing else, and arrays of different lengths or shapes are refused by assertion. operator* of matrices, transposed or not, returns the matrix product, and dgemm stores alpha*A*B + beta*C into C, each operand transposed exactly where asked; transposing twice gives the matrix back, and rows() and cols() follow the transposition. ReduceDim as used by a parallel reduction gives, for each index of the dimension kept, alpha times the sum of the entries (or of their squares) along the dimension reduced: its initial value is zero for every entry, its steps add one slice each, and joining two partial results adds them.",
 ['inputs', 'schedules'], 'all shapes, layouts, values and splittings of a reduction',
 'The tests use single contiguous square-like matrices and each helper in one overload; an extent taken from the wrong operand, an untested overload or a join that only works for one thread is not seen.',
 ['MParT/Utilities/LinearAlgebra.h'],
 [('AddInPlace, operator+, operator+=', 'MParT/Utilities/LinearAlgebra.h'), ('TransposeObject, operator*, dgemm', 'MParT/Utilities/LinearAlgebra.h, src/Utilities/LinearAlgebra.cpp'), ('ReduceDim', 'MParT/Utilities/LinearAlgebra.h')],
 'abstract interpretation of every instantiation on arrays of symbolic entries in three layouts',
 'Shapes up to 3 stand for all; the operations are polynomial in the entries, rounding is not considered. Shape refusals are assertions and hold in builds with assertions.')
prop('C16', 'Training minimises the objective under its options and keeps the best map',
 "TrainMap runs the optimiser named by opt_alg with exactly the stopping values, tolerances and limits of the options, minimising the given objective over the coefficients of the given map, starting from the map's own coefficients (all ones if it has none); afterwards the map holds the optimiser's answer and the objective value found is returned. TrainMapAdaptive starts from the given multi-index sets with zero coefficients. While the total number of terms is below maxSize and fewer than maxPatience consecutive steps have failed to lower the best test error, it adds, among all reduced-margin terms that stay below maxDegrees in every input (if given), the one where the gradient of the training objective is largest in magnitude, that gradient being taken at the current coefficients with zeros for the new terms, and retrains from the current coefficients with zero for the new one; it stops when no term with a nonzero gradient can be added. Every component and every training uses the given options and objective. It returns the map trained on the sets with the lowest test error seen (the given sets included) and leaves those sets in its argument; sets or maximum degrees that do not fit the objective's dimensions are refused. Verbosity changes nothing but the messages.",
 ['inputs', 'configurations', 'histories'], 'all options, initial coefficients and every sequence of optimiser answers, gradients and test errors',
 'The tests run the real optimiser on a few data sets; a lost tolerance or a wrong choice of term still trains acceptably there.',
 ['src/TrainMap.cpp', 'src/TrainMapAdaptive.cpp', 'MParT/TrainMap.h', 'MParT/TrainMapAdaptive.h'],
 [('TrainMap, SetupOptimization', 'src/TrainMap.cpp'), ('TrainMapAdaptive, findMaxGrad, maxDegreeRMFilter', 'src/TrainMapAdaptive.cpp')],
 'abstract interpretation of the training drivers over an uninterpreted optimiser, objective, factory and multi-index sets',
 'Scenarios of gradients and test errors are enumerated (22 quick, several hundred thorough); NLopt and MultiIndexSet::Expand are taken at their word.')
prop('C22', 'The Python module offers each C++ member under its own name and arguments',
 "Every function, method, field and enumerator of the Python module is the C++ entity of the same name (Python protocol names and the pythonic aliases of the multi-index classes stand for their documented counterparts, e.g. __lt__ for operator<, __len__ of an index set for Length, max for Max). A wrapper named after a member calls that member exactly once, on the object, with its own arguments in their order, and returns its result; a factory gives every argument to the constructor in order; array arguments are converted entry by entry, and an object that outlives the call keeps copies of them, not their memory. Keyword names and defaults are those of the C++ parameters. Every field of MapOptions, TrainOptions and ATMOptions can be read and set. Each bound class lists the bound classes it derives from, and every binding function is run by the module. CreateGaussianKLObjective keeps its own copy of all training and test samples, test samples as test samples, and passes the dimension on; TrainMapAdaptive hands its sets, objective and options over and leaves the enlarged sets in the caller's objects. Protocol names exist in Python.",
 ['inputs', 'configurations'], 'every name of the Python module and every argument',
 'The Python tests touch a part of the names with symmetric or default arguments; a swapped field, argument or default passes them.',
 ['bindings/python/src/', 'bindings/python/include/CommonPybindUtilities.h'],
 [('MultiIndexWrapper, MapOptionsWrapper, ParameterizedFunctionBaseWrapper, ConditionalMapBaseWrapper, MapObjectiveWrapper, TrainMapAdaptiveWrapper', 'bindings/python/src/')],
 'abstract interpretation of the module initialiser with pybind11 uninterpreted; comparison of the resulting registration table with the C++ classes',
 'pybind11 is taken at its word. The PyTorch wrapper (bindings/python/package) and the Julia and Matlab bindings are not covered.')
prop('C11', 'Operations leave the objects they act on and their inputs unchanged',
 "Evaluating, differentiating or inverting a map or function, asking for its log determinant or its gradients, its Jacobians or its coefficients, evaluating or sampling a density, evaluating an objective, and every const member function of the library write nothing that outlives the call except the arrays they return or are given for output: not the object, its coefficients or factorisations, not the maps, functions and densities it holds, not global or static state, and not the points, sensitivities or other inputs. So the result of an operation depends on its arguments and on what was last constructed or set, never on which operations ran before or on which points. Two things may change: a sampler's random generator advances, and settings private to an object may be overwritten if every operation that uses them sets them first. An objective evaluated at coefficients sets those in the map it is given.",
 ['inputs', 'histories'], 'all operations, in any order, on any inputs',
 'Tests call each operation once or twice on a fresh object; a cached result that is not refreshed, a factor overwritten in place, or a component re-wrapped during an evaluation shows only in particular sequences of calls.',
 ['src/ParameterizedFunctionBase.cpp', 'src/ConditionalMapBase.cpp', 'src/AffineMap.cpp', 'src/ComposedMap.cpp', 'src/TriangularMap.cpp', 'src/SummarizedMap.cpp', 'MParT/MonotoneComponent.h', 'MParT/MultivariateExpansion.h', 'src/Distributions/', 'src/MapObjective.cpp', 'MParT/Quadrature.h'],
 [('operations of the function, map, density, sampler and objective hierarchies', 'MParT/ParameterizedFunctionBase.h, MParT/ConditionalMapBase.h, MParT/Distributions/DensityBase.h, MParT/Distributions/SampleGenerator.h, MParT/MapObjective.h'), ('quadrature dimension set before use', 'MParT/MonotoneComponent.h, MParT/Quadrature.h')],
 'interprocedural effect analysis (value-flow with callees, kernels and reducers inlined; virtual calls charged to every overrider)',
 'One instantiation per template in the quick tier (three in the thorough tier). Functors of the library and quadrature integrands are examined where operations run them.')
prop('C12', 'A multi-index set stays consistent under every sequence of operations',
 "For every history of AddActive, Activate, ForciblyActivate, Expand, ForciblyExpand, Union, +=, assignment and SetLimiter on a MultiIndexSet: the active terms are exactly those added, each once, in the order added; no active term is one its limiter rejects. AddActive (and +=) of a term the limiter rejects returns -1 and changes nothing, of an active term returns its index, otherwise appends it. Activate appends an admissible margin term; Expand(i) the inactive admissible forward neighbours of term i, Expand() all of the reduced margin, ForciblyActivate(m) m with, recursively, every missing backward neighbour the limiter allows, ForciblyExpand(i) the same for all allowed forward neighbours of i; each returns the indices of the terms it added, each once. Union and += of a set append its active terms the limiter allows; Union returns how many. SetLimiter throws, leaving the set as it was, if an active term fails; otherwise everything follows the new limiter. After any history IndexToMulti, at, [], MultiToIndex (-1 if not active), IsActive, Size, Length, MaxOrders, FilterBounded, Margin (inactive allowed terms with an active backward neighbour), ReducedMargin (those with all backward neighbours active), IsAdmissible, IsExpandable, Frontier, StrictFrontier, AdmissibleForwardNeighbors, BackwardNeighbors, NumActiveForward and NumForward are what the active terms and the limiter alone define, each entry once. Copies are independent. No reference or iterator into a container is used after the container grew.",
 ['inputs', 'histories', 'configurations'], 'all histories of operations, limiters and terms',
 'Tests build a few sets in one order and look at a few sizes; the margin after a forced term, a limiter narrowed and widened again, terms added while their neighbours are walked, or a term reached twice is not sampled, and a dangling reference usually still reads the old values.',
 ['src/MultiIndices/MultiIndexSet.cpp', 'MParT/MultiIndices/MultiIndexSet.h'], [('operations and queries', 'src/MultiIndices/MultiIndexSet.cpp: MultiIndexSet'), ('margin bookkeeping', 'src/MultiIndices/MultiIndexSet.cpp: AddForwardNeighbors, AddBackwardNeighbors, SetLimiter')],
 'abstract interpretation of the class to a fixpoint over its states up to renumbering, with uninterpreted limiter, neighbourhood and multi-index type, and a borrow analysis of references into growing containers',
 'States over 8 terms of length 2 (and, in the thorough tier, of length 3) and 3 limiters, all reachable states; larger sets are taken to behave alike. Terms are of the length of the set. Whether the zero multi-index counts as reduced margin of a set without it is left open.')
prop('C13', 'Multi-indices, limiters and fixed sets stand for their vectors of orders',
 "A MultiIndex, however constructed or Set, is its vector of orders: Vector, Get, NumNz, Sum, Max and Length agree with it, Get and Set past the end throw. The comparison operators are the total order by length, then sum, then maximum, then entries; AnyBounded says whether an order reaches the bound. ForwardNeighbors and BackwardNeighbors add or take one from each (nonzero) order, IsForward and IsBackward recognise exactly these. The limiters TotalOrder, Dimension, MaxDegree, Anisotropic (product of weights to the orders at least the threshold; weights in [0,1] and a threshold in (0,1), others throw), None, And, Or, Xor accept exactly the multi-indices they describe. CreateTotalOrder and CreateTensorProduct hold exactly the terms up to the order that the limiter accepts, and keep the limiter; a matrix gives its rows. A FixedMultiIndexSet made by Fix (compressed or dense), from dense or compressed orders, or by total order has exactly those terms (Fix in the same order): Size, Length, IndexToMulti, its inverse MultiToIndex (-1 if absent) and MaxDegrees agree with them, without access outside its arrays.",
 ['inputs'], 'all lengths, orders and terms',
 'Tests check single examples; a comparison that fails to order two vectors of equal sum, a limiter off by one in one input, or a compressed layout wrong only for a term of zeros or a full term is not seen, and reads past the arrays go unnoticed.',
 ['src/MultiIndices/MultiIndex.cpp', 'src/MultiIndices/MultiIndexLimiter.cpp', 'src/MultiIndices/MultiIndexNeighborhood.cpp', 'src/MultiIndices/FixedMultiIndexSet.cpp', 'src/MultiIndices/MultiIndexSet.cpp'], [('multi-index', 'src/MultiIndices/MultiIndex.cpp'), ('limiters', 'src/MultiIndices/MultiIndexLimiter.cpp, MParT/MultiIndices/MultiIndexLimiter.h'), ('fixed sets', 'src/MultiIndices/FixedMultiIndexSet.cpp; src/MultiIndices/MultiIndexSet.cpp: Fix')],
 'abstract interpretation of the classes on multi-indices partitioned by support and order type, access bounds included',
 'Lengths up to 4 and orders up to 5 stand for all; rounding in Anisotropic is not considered.')
prop('C17', 'The root search encloses its target and stops only within tolerance',
 "For every continuous strictly increasing function and target: FindBracket, started at a point, moves away from it by steps that double, so that roots at any practical distance are reached; info=0 means that it returns evaluated points xlb<xub with their function values and f(xlb)<=yd<=f(xub), info=-1 that the function is nearly flat over a wide interval, info=-2 that its iteration limit was reached without a bracket. InverseSingleBracket then evaluates the function only inside the current bracket, replaces the end point on the side of each new value, needs no more than a few evaluations beyond bisection, and returns with info=0 only a point whose value is within ftol of the target or the middle of a bracket narrower than xtol or with values closer than ftol; at its iteration limit it returns info=-1 and a point of the bracket, without a bracket a NaN and info=-2.",
 ['inputs', 'histories'], 'every increasing function, target, starting point and pair of tolerances',
 'The tests search a few smooth functions near zero with loose tolerances; a bracket updated on the wrong side or a premature stop on other value patterns passes.',
 ['MParT/Utilities/RootFinding.h'],
 [('FindBracket, InverseSingleBracket, Find_x_ITP', 'MParT/Utilities/RootFinding.h')],
 'abstract interpretation with the function uninterpreted, its values partitioned by order relative to target, tolerances and values already seen',
 'Traces are enumerated to 6 free values (8 thorough) from each of several starts; positions are exact, rounding is not considered.')
prop('C18', 'Maps and densities are built only from parts that fit, and report their sizes',
 "Constructing a triangular, composed, summarised or single-entry map throws exactly when its parts do not fit: a block must not have more outputs than inputs and each block's input dimension must be that of the block before plus its own output dimension; composed layers must all be square of one dimension; a summarised component must have one output and one more input than the summary's output; adopting coefficients requires every component's to be set. Affine maps are refused (by exception or assertion) for more rows than columns or an offset of another length than the rows; Gaussian, pullback and pushforward densities, samplers and distributions when the dimensions of mean, covariance, map and base differ. What is built reports the input and output dimensions and number of coefficients of the function it stands for, and affine maps and Gaussian means are copies. Setting or wrapping coefficients throws exactly when the length differs from the number of coefficients, leaving the stored ones unchanged. The derivative, evaluation and inverse routines of a monotone component throw for output or sensitivity arrays of the wrong shape, and its inverse for unknown methods and negative or vanishing tolerances.",
 ['inputs', 'configurations'], 'every combination of dimensions of the parts',
 'The tests try one or two mismatched constructions; a weakened or misplaced comparison, or a wrong reported dimension for another shape, passes and shows up as memory corruption later.',
 ['src/TriangularMap.cpp', 'src/ComposedMap.cpp', 'src/SummarizedMap.cpp', 'src/AffineMap.cpp', 'src/AffineFunction.cpp', 'src/MapFactory.cpp', 'src/ParameterizedFunctionBase.cpp', 'MParT/Distributions/PullbackSampler.h', 'MParT/Distributions/PushforwardDensity.h', 'MParT/Distributions/PushforwardSampler.h', 'MParT/Distributions/Distribution.h', 'MParT/Distributions/GaussianSamplerDensity.h', 'src/Distributions/GaussianSamplerDensity.cpp', 'src/Distributions/PullbackDensity.cpp', 'MParT/MonotoneComponent.h'],
 [('constructors of composite maps', 'src/TriangularMap.cpp'), ('SetCoeffs, WrapCoeffs', 'src/ParameterizedFunctionBase.cpp'), ('checkGradFunctionInput, checkJacobianInput, InverseImpl', 'MParT/MonotoneComponent.h')],
 'abstract interpretation of constructors, setters and argument checks on all small combinations of dimensions, components opaque',
 'Dimensions are enumerated up to 3 or 4 (one to three parts); they occur only in sums and comparisons. Kernels are not entered.')
na('C90', 'Monotone components are strictly increasing in their last input',
 "For every coefficient vector and input the map component is strictly increasing in its last input.",
 ['inputs'], 'all coefficients and inputs', 'Tests sample a handful of points.', ['MParT/MonotoneComponent.h', 'MParT/PositiveBijectors.h'], [('positive bijector applied to the integrand', 'MParT/MonotoneIntegrand.h')],
 'Depends on floating-point values of quadrature sums of exponentials; no static bound on runtime reals is in reach (positivity underflows for some inputs).')
na('C91', 'Analytic derivatives agree with the function they differentiate',
 "Every gradient reported by a map equals the mathematical derivative of its evaluation within rounding and quadrature error.",
 ['inputs'], 'all inputs and coefficients', 'Tests compare with finite differences at a few points.', ['MParT/MonotoneComponent.h'], [('derivative kernels', 'MParT/MonotoneComponent.h')],
 'A statement about real-valued functions and truncation error; static analysis can decide the data flow (C05, C10, C20) but not the calculus.')
na('C92', 'Inverting an evaluation returns the original point within tolerance',
 "Inverse(x1, Evaluate(x1,x2)) returns x2 within the requested tolerance for every admissible input.",
 ['inputs'], 'all inputs and coefficients', 'Tests sample points.', ['MParT/Utilities/RootFinding.h'], [('bracketed root search', 'MParT/Utilities/RootFinding.h')],
 'Convergence of a floating-point root search depends on runtime values.')
na('C93', 'Adaptive quadrature meets its requested tolerance',
 "The adaptive rules return an integral within the requested absolute or relative tolerance unless the subdivision limit is hit.",
 ['inputs'], 'all integrands', 'Tests integrate a few functions.', ['MParT/Quadrature.h'], [('error estimates', 'MParT/Quadrature.h')],
 'Numerical-analysis property of runtime integrands.')
na('C94', 'Training reduces the objective',
 "A trained map never has a worse objective value on the training set than the initial map.",
 ['inputs', 'histories'], 'all data sets and options', 'Tests run two optimisations.', ['src/TrainMap.cpp'], [('NLopt driver', 'src/TrainMap.cpp')],
 'Depends on the behaviour of the external optimiser on runtime data.')
na('C95', 'Gaussian samples have the requested mean and covariance',
 "Samples drawn from the Gaussian sampler have the configured mean and covariance.",
 ['inputs', 'schedules'], 'all means, covariances and seeds', 'Tests use loose statistical bounds for one seed.', ['src/Distributions/GaussianSamplerDensity.cpp'], [('sampling kernel', 'src/Distributions/GaussianSamplerDensity.cpp')],
 'A distributional property of a pseudo-random generator.')
prop('C03', 'Public operations refuse missing coefficients and return their own result',
 "Evaluating, differentiating or inverting a map, or asking for its log determinant or its gradients, throws an exception whenever the map needs coefficients that have not been set (or were set with another size), and otherwise never. In every overload, array or matrix, the returned array has the documented shape and holds exactly what the map's implementation of that same operation computes from the caller's arguments in the given order; densities, samplers and distributions forward their operations likewise.",
 ['inputs', 'histories'], 'all objects, coefficient states and arguments, for each public operation and overload',
 'Tests call a few overloads on a few objects with coefficients set; a missing readiness test, swapped argument or wrong shape shows only for particular dimensions or histories.',
 ['src/ParameterizedFunctionBase.cpp', 'src/ConditionalMapBase.cpp', 'src/Distributions/DensityBase.cpp', 'MParT/Distributions/Distribution.h', 'MParT/Distributions/SampleGenerator.h'],
 [('readiness test', 'src/ParameterizedFunctionBase.cpp'), ('public overloads forwarding to virtual hooks', 'src/ParameterizedFunctionBase.cpp, src/ConditionalMapBase.cpp, src/Distributions/DensityBase.cpp')],
 'value-flow and dominance analysis of each overload; truth-table evaluation of the readiness test',
 'Host overloads only (device overloads are not compiled here); trusts Eigen/Kokkos wrappers to denote the array they wrap (see C24 for the library\'s own conversions).')

prop('C01', 'Saving and loading give back the same map, settings and index sets',
 "Everything a monotone component, triangular map, multi-index set, basis, quadrature rule or MapOptions object writes when saved is read back by the matching load in the same order and with the same type, ends up in the member (or the constructor argument initialising the member) it was saved from, and no member is left unset; arrays are transferred completely with their label and extents; coefficients are restored exactly when their number matches the expansion; and every map type the factory can build is registered for polymorphic saving and loading, including through the Python serialisation wrappers.",
 ['inputs', 'configurations', 'histories'], 'all objects of every serialisable type, whatever their state, and all 36 component types of the factory',
 'Tests round-trip a few objects and compare evaluations; a swapped pair of equally typed fields with equal values, an unrestored workspace bound or an unregistered type shows only for particular settings.',
 ['MParT/MonotoneComponent.h', 'MParT/TriangularMap.h', 'MParT/MultivariateExpansionWorker.h', 'MParT/Quadrature.h', 'MParT/MultiIndices/FixedMultiIndexSet.h', 'MParT/MapOptions.h', 'MParT/Utilities/Serialization.h', 'src/MapFactoryImpl*.cpp', 'bindings/python/src'],
 [('save / load / load_and_construct / serialize members', 'MParT/*.h'), ('array save/load', 'MParT/Utilities/Serialization.h'), ('polymorphic registrations', 'src/MapFactoryImpl*.cpp, src/TriangularMap.cpp'), ('Serialize, Deserialize, ToBytes, pickle', 'bindings/python/src')],
 'archive-sequence comparison over value-flow analysis of save/load pairs; registration completeness query over the resolved program',
 'Trusts cereal and pybind11; composed, summarised, affine and identity maps are not serialisable in this code base and are not covered.')

prop('C02', 'Affine and identity maps compute every operation of x -> A x + b',
 "For every matrix A (square or wide, or absent) and offset b (or absent): evaluation gives A x + b; the log determinant is the constant log|det| of A's trailing square block (0 without A); the inverse solves that block for r - b - A1 x1 where A1 is the leading block; the input gradient is A' times the sensitivity; the log-determinant input gradient is 0. The identity map copies its trailing inputs and has zero log determinant and zero gradient with respect to the inputs it drops. A and b are copied at construction. Every element of the output is assigned, for any layout of the output, and nothing it held before is used; the matrix product, triangular solve and determinant helpers compute the operation they are named after for every combination of transposition flags.",
 ['inputs', 'configurations'], 'all A, b, shapes, output layouts and points',
 'Tests use one square and one wide example with column-major outputs that start at zero; a wrong block, a missing copy back, or an output left unassigned is then invisible.',
 ['src/AffineMap.cpp', 'src/AffineFunction.cpp', 'src/IdentityMap.cpp', 'src/Utilities/LinearAlgebra.cpp', 'MParT/Utilities/LinearAlgebra.h'],
 [('operation implementations', 'src/AffineMap.cpp, src/AffineFunction.cpp, src/IdentityMap.cpp'), ('factorise / dgemm / solves', 'src/AffineMap.cpp, src/Utilities/LinearAlgebra.cpp')],
 'matrix-level abstract interpretation of the value-flow graph with symbolic extents, per configuration case, compared with the required matrix expression',
 'Host instantiations; Eigen factorisations and products, Kokkos copies and subviews are trusted to do what they are named after; rounding is not considered.')
prop('C24', 'Array conversions address the same elements as their source',
 "Every conversion the library offers between Kokkos views, Eigen vectors and matrices (including blocks and strided maps), std::vectors, raw pointers and Python buffer descriptors returns an object that addresses element (i,j) of the source at (i,j), with the same extents and strides, for every layout; copies contain all elements in the same positions; no conversion writes outside its local arrays.",
 ['inputs', 'configurations'], 'all extents, strides and layouts',
 'Tests convert small contiguous arrays; a dropped outer stride, swapped extents or a one-element overflow shows only for blocks or strided sources.',
 ['MParT/Utilities/ArrayConversions.h'], [('conversion functions', 'MParT/Utilities/ArrayConversions.h')],
 'address-map comparison: value-flow analysis of every instantiated conversion, result (pointer, extents, strides) against the source symbol by symbol',
 'Host conversions (ToDevice/ToHost across memory spaces are not compiled here); trusts that Kokkos and Eigen place element (i,j) at pointer + i*stride0 + j*stride1.')
prop('C09', 'Each option combination builds the component it names, with its values',
 "For each of the 36 combinations of basis family, linearised or not, positive bijector and quadrature rule, exactly one creation function is registered; it builds a monotone component of exactly those types, the linearised basis being used exactly when a bound in the options is finite. In the component built, the basis normalisation, lower and upper bounds, quadrature points, maximum and minimum subdivisions, absolute and relative tolerances, nugget and continuous-derivative flag are those of the options; the component starts with one zero coefficient per multi-index. An unregistered combination throws. CreateExpansion builds the basis its options name with the same values; CreateTriangular builds outputDim components in order, component k having inputDim - outputDim + 1 + k inputs, the requested total order and the given options; CreateSingleEntryMap is identity blocks around the given component at the active index and throws for an active index beyond the dimension or unequal to the component's input dimension. The maps and expansions created start with numCoeffs zero coefficients. Two MapOptions compare equal exactly when every option is equal.",
 ['inputs', 'configurations'], 'all option values and dimensions, all 36 combinations',
 'Tests build a few of the combinations with default values; an option dropped or swapped in one of the 18 factory files goes unnoticed.',
 ['src/MapFactory.cpp', 'src/MapFactoryImpl*.cpp', 'MParT/MapFactory.h', 'MParT/MapOptions.h'],
 [('registered creation functions', 'src/MapFactoryImpl*.cpp'), ('key computation and refusal', 'MParT/MapFactory.h'), ('CreateExpansion, CreateTriangular, CreateSingleEntryMap', 'src/MapFactory.cpp'), ('MapOptions::operator==', 'MParT/MapOptions.h')],
 'registry query over the resolved program and value-flow analysis of each registered function; case evaluation of guards over the finite option space',
 'Host registrations (device ones are not compiled here); registrations that are not literal are reported as undecided.')
prop('C19', 'Densities, samplers and objectives combine map and base as documented',
 "The Gaussian log density is -(d log 2pi + log|det C| + (x-m)'C^-1(x-m))/2 with input gradient -C^-1(x-m) and samples m + L z, with m absent meaning 0 and C absent the identity; points of another dimension are refused. Pullback density: logp(T(x)) + logdet(x), with the matching input and coefficient gradients; pushforward density: logp(T^-1(x)) - logdet(T^-1(x)); pushforward samples are the map of base samples, pullback samples its inverse at them; dimensions that do not fit are refused at construction, and a seed given to a sampler reaches the generator it draws from. The KL objective is minus the mean over the samples of logp(T(x)) + logdet(x), its gradient the derivative of that with respect to the map's coefficients, each sample counted once however the reduction is split over threads; an objective evaluates at the coefficients it is passed, training operations use the training samples and test operations the test samples, and a missing test set is refused. A Distribution forwards each operation to its own sampler or density, whose dimensions must agree. Covariance factorisations solve with, multiply by and take the determinant of the factors they computed.",
 ['inputs', 'configurations', 'schedules'], 'all maps, base distributions, means, covariances, sample sets, layouts and thread counts',
 'Tests compare a few log densities on standard normals and square maps; a seed that never arrives, a swapped data set, a wrong reduction join or a rectangular map is not sampled.',
 ['src/Distributions/GaussianSamplerDensity.cpp', 'src/Distributions/PullbackDensity.cpp', 'MParT/Distributions/PullbackSampler.h', 'MParT/Distributions/PushforwardDensity.h', 'MParT/Distributions/PushforwardSampler.h', 'src/MapObjective.cpp', 'MParT/MapObjective.h', 'MParT/Distributions/Distribution.h', 'MParT/Distributions/TransportDistributionFactory.h', 'MParT/Utilities/LinearAlgebra.h'],
 [('density and sampler operations', 'src/Distributions/*.cpp'), ('objective value, gradient and reducers', 'src/MapObjective.cpp'), ('distribution facade and factories', 'MParT/Distributions/*.h')],
 'matrix-level abstract interpretation of the value-flow graph with map and base operations uninterpreted, per configuration case, compared with the required expression',
 'Host instantiations; the random generator, Eigen factorisations and products and Kokkos reductions (given correct init/join) are trusted; rounding is not considered.')
