"""Source of properties.jsonl and MANIFEST.json (python3 tool/props.py rewrites both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP, HIS, CFG = 'inputs', 'histories', 'configurations'
PROPS = []
def P(id, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
M = 'MParT/'
P('C01', 'Multi-indices read back what was stored, for every way of building them',
  'A multi-index built densely, built from its nonzero entries, built as a constant, copied, or modified entry by entry reports, at every position, exactly the value it was given and zero elsewhere. Its length, sum, maximum and nonzero count are those of that vector, whatever the order of earlier writes including writes of zero. Reading or writing at a position outside the length raises an error and changes nothing.',
  [INP, HIS], 'all lengths, all entry values, all sequences of writes',
  'The tests look at a few short multi-indices; the cached sum and maximum go wrong only after particular write sequences (overwriting the maximum, writing zero over a nonzero).',
  [M+'MultiIndices/MultiIndex.h', 'src/MultiIndices/MultiIndex.cpp'], [('nonzero lists and cached sum/max', 'src/MultiIndices/MultiIndex.cpp: constructors, Set, Get, Vector, Sum, Max, NumNz')])
P('C02', 'Multi-index comparison is a strict total order that agrees with equality',
  'For any two multi-indices of any lengths exactly one of a<b, a=b, b<a holds, the order is transitive, and two multi-indices are equal exactly when they have the same length and the same entries. The derived comparisons (not equal, greater, at most, at least) are consistent with these. Shorter multi-indices come first, then smaller total, then smaller maximum, then the entries decide.',
  [INP], 'all pairs and triples of multi-indices',
  'An ordering defect shows only for pairs that tie on several keys; sorted containers built on it then silently lose or duplicate terms.',
  [M+'MultiIndices/MultiIndex.h', 'src/MultiIndices/MultiIndex.cpp'], [('comparison operators', 'src/MultiIndices/MultiIndex.cpp: operator<, operator==, ...')])
P('C03', 'Index sets keep active multi-indices distinct, findable and stably numbered',
  'After any history of activations, additions, unions and expansions, the active multi-indices of a set are pairwise distinct, numbered 0..size-1, and looking one up returns its number while looking up an inactive one reports absence. A multi-index that is active stays active with the same number when others are added. Activating an existing multi-index changes nothing, and the reported maximum degree per coordinate is that of the active members.',
  [HIS, INP], 'all operation histories and all starting sets',
  'The tests run short fixed scenarios; the invariant can break at the n-th operation of a history, for instance when storage is reallocated while neighbours are being linked.',
  [M+'MultiIndices/MultiIndexSet.h', 'src/MultiIndices/MultiIndexSet.cpp'], [('global/active maps', 'src/MultiIndices/MultiIndexSet.cpp: AddInactive, AddActive, Activate, Union, operator+=')])
P('C04', 'Admissibility, expansion and the frontier follow the neighbour relation',
  'A known inactive multi-index is reported admissible exactly when it passes the limiter and all its backward neighbours are active; active ones within the limiter are admissible. Expanding an active multi-index activates exactly its admissible inactive forward neighbours, and forced expansion keeps the set downward closed. The frontier (active members that can still be expanded), margin (inactive forward neighbours of active members) and reduced margin (the admissible part of the margin) reported by a set equal these definitions. A limiter is never violated by a set grown through it.',
  [HIS, INP], 'all sets reachable by expansion, all limiters and all coordinates',
  'The definitions quantify over every member and every neighbour; tests check them on two or three small 2-D sets.',
  [M+'MultiIndices/MultiIndexSet.h', 'src/MultiIndices/MultiIndexSet.cpp', M+'MultiIndices/MultiIndexLimiter.h', M+'MultiIndices/MultiIndexNeighborhood.h'], [('edges and admissibility', 'src/MultiIndices/MultiIndexSet.cpp: IsAdmissible, Expand, ForciblyExpand, Margin, Frontier')])
P('C05', 'Compressed index sets hold exactly the multi-indices they were built from',
  'A fixed index set of a given dimension and total order contains every multi-index of that total degree or less exactly once, and one built from explicit nonzero data or converted from a growing set contains exactly those multi-indices. Converting a number to a multi-index and back is the identity, a multi-index not in the set is reported absent, and the reported size and maximum degrees are exact.',
  [INP, CFG], 'all dimensions, orders, sets and members',
  'Tests compare a handful of small sets; counting and filling are two separate recursions that must agree for every dimension and order, or memory is overrun.',
  [M+'MultiIndices/FixedMultiIndexSet.h', 'src/MultiIndices/FixedMultiIndexSet.cpp'], [('compressed storage', 'src/MultiIndices/FixedMultiIndexSet.cpp: CalculateMaxDegrees, FillTotalOrder, TotalOrderSize, IndexToMulti, MultiToIndex')])
P('C06', 'One-dimensional basis values and derivatives are exact at every order',
  'For every order and point, each polynomial and function basis returns the member of its family defined by its three-term recurrence (normalised when requested), its first derivative and its second derivative. The all-orders routines and the single-order routines agree, for every maximum order, and write exactly the orders they were asked for.',
  [INP, CFG], 'all orders, all points, normalised or not, all basis families',
  'Tests compare a few low orders at a few points; special cases at orders 0, 1, 2, normalisation and the recursions at high order are separate code paths in every routine.',
  [M+'OrthogonalPolynomial.h', M+'HermiteFunction.h', M+'Utilities/MathFunctions.h'], [('three-term and Clenshaw recursions', M+'OrthogonalPolynomial.h: EvaluateAll, EvaluateDerivatives, EvaluateSecondDerivatives, Evaluate, Derivative, SecondDerivative'), ('Hermite functions', M+'HermiteFunction.h')])
P('C07', 'Linearised bases continue linearly and smoothly outside their bounds',
  'Inside the bounds a linearised basis equals the basis it wraps, with the same first and second derivatives; outside, each function is the tangent line at the nearest bound, with constant first derivative and zero second derivative. This holds for every order, every pair of bounds and every point including the bounds themselves, and the all-orders and single-order routines agree.',
  [INP, CFG], 'all points, orders and bounds',
  'The behaviour is piecewise with a case per side and per routine; tests sample few points with one pair of bounds.',
  [M+'LinearizedBasis.h'], [('piecewise evaluation', M+'LinearizedBasis.h: EvaluateAll, EvaluateDerivatives, EvaluateSecondDerivatives, Evaluate, Derivative, SecondDerivative')])
P('C08', 'Multivariate expansions and their derivatives equal the tensor-product sum',
  'For every index set, coefficient vector and point, the value of an expansion is the coefficient-weighted sum of products of one-dimensional basis functions, where a coordinate of degree zero contributes a factor one. Its coefficient gradient, input gradient, first and second derivative in the last input, and the mixed gradients of that derivative are the exact partial derivatives of the same sum.',
  [INP, CFG], 'all index sets, coefficients, points and bases',
  'The sum runs over sparse data of arbitrary shape; tests use two small sets, so errors specific to a sparsity pattern (no degree in the last input, one-dimensional sets, isolated terms) pass.',
  [M+'MultivariateExpansionWorker.h', M+'MultivariateExpansion.h'], [('cached term evaluation', M+'MultivariateExpansionWorker.h: Evaluate, InputDerivative, DiagonalDerivative, CoeffDerivative, MixedInputDerivative, MixedCoeffDerivative')])
P('C09', 'Positive bijectors and sigmoids: range, monotonicity and derivatives',
  'Every positive bijector maps every real number to a positive value, is strictly increasing, and its reported first and second derivatives and inverse are those of the same function on both sides of every internal switch. Every sigmoid is increasing with values in the unit interval, and its reported derivatives and inverse are those of the same function.',
  [INP], 'all real arguments',
  'Numerically stable implementations switch formula by sign or magnitude; tests sample a grid and cannot show agreement across branches.',
  [M+'PositiveBijectors.h', M+'Sigmoid.h'], [('branching formulas', M+'PositiveBijectors.h: Exp, SoftPlus'), ('sigmoid types', M+'Sigmoid.h: SigmoidTypeSpace')])
P('C10', 'Monotone components integrate a positive integrand and differentiate it exactly',
  'The value of a monotone component is the expansion at zero last input plus the quadrature of the positive integrand up to the last input, and the integrand passed to the quadrature is the bijector of the expansion slope plus the configured nugget, scaled by the last input. The input derivative, coefficient gradients and log-determinants it reports are the derivatives of that quantity for every point and coefficient vector.',
  [INP, CFG], 'all points, coefficients, integrand types, nuggets',
  'Positivity and derivative consistency must hold for every coefficient vector; tests use a fixed quadrature and one or two expansions.',
  [M+'MonotoneComponent.h', M+'MonotoneIntegrand.h'], [('integrand evaluation', M+'MonotoneIntegrand.h: operator()'), ('component routines', M+'MonotoneComponent.h')])
P('C11', 'Scalar inversion returns a point that solves the equation or reports failure',
  'Inverting a strictly increasing function at a target returns a point whose value agrees with the target within the requested tolerance or lies in a bracket of the root no wider than the requested tolerance, for every starting guess. The bracket always encloses the root, and non-convergence within the iteration limit or a non-bracketing function is reported as a failure rather than returned as a solution.',
  [INP], 'all increasing functions, targets, guesses and tolerances',
  'The search is an iteration whose bracket invariant must hold at every step for every function; tests invert a few smooth functions.',
  [M+'Utilities/RootFinding.h'], [('bracketing and ITP refinement', M+'Utilities/RootFinding.h: FindBracket, InverseSingleBracket')])
P('C12', 'Triangular maps act blockwise with correctly placed coefficients and inputs',
  'Output block k of a triangular map depends only on the leading inputs of component k and on its own slice of the coefficients, and equals what that component returns on them. Inversion undoes evaluation block by block using earlier outputs, the log-determinant is the sum over components, and gradients place each component contribution in its own rows and columns with zeros elsewhere.',
  [INP, CFG], 'all numbers of components, block sizes, input widths and points',
  'The index arithmetic depends on every block size at once; tests use components of equal shape where several wrong offsets coincide with right ones.',
  [M+'TriangularMap.h', 'src/TriangularMap.cpp'], [('slicing by running offsets', 'src/TriangularMap.cpp: EvaluateImpl, InverseInplace, LogDeterminantImpl, CoeffGradImpl, GradientImpl')])
P('C13', 'Composed maps obey composition and the chain rule for any number of maps',
  'Evaluating a composed map applies its component maps in order, its inverse applies their inverses in reverse order, and its log-determinant is the sum of the component log-determinants at the intermediate points. Its input and coefficient gradients, and those of its log-determinant, follow the chain rule through every component, whatever the number of maps and of stored intermediate checkpoints.',
  [INP, CFG], 'all lists of maps, all checkpoint counts, all points',
  'The checkpointing schedule recomputes intermediate points; errors appear only for particular combinations of map count, checkpoint count and component, which tests do not enumerate.',
  [M+'ComposedMap.h', 'src/ComposedMap.cpp'], [('checkpointed back-propagation', 'src/ComposedMap.cpp: Checkpointer, EvaluateImpl, GradientImpl, CoeffGradImpl, LogDeterminantCoeffGradImpl')])
P('C14', 'Coefficients set on a map are the coefficients it uses and reports',
  'Setting the coefficients of any parameterised function with a vector of the right length makes it report and use exactly those values, including every part of a composite map, and a vector of the wrong length is rejected with an error. Wrapping maps to external memory makes them follow that memory; using a function before it has coefficients is reported as an error rather than read from nowhere.',
  [INP, HIS, CFG], 'all functions, coefficient vectors and sequences of set/wrap operations',
  'Composite maps share slices of one buffer; a history such as set, wrap, set again on a part can disconnect them, which tests rarely exercise.',
  [M+'ParameterizedFunctionBase.h', 'src/ParameterizedFunctionBase.cpp', 'src/TriangularMap.cpp', 'src/ComposedMap.cpp'], [('coefficient views', 'src/ParameterizedFunctionBase.cpp: SetCoeffs, WrapCoeffs, CheckCoefficients')])
P('C15', 'Affine, identity and summarised maps compute their defining formula',
  'An affine map returns the matrix-vector product plus offset with the correct constant log-determinant, its inverse undoes it and its gradients are the transposed product; an identity map returns the trailing inputs unchanged with zero log-determinant; a summarised map equals its component applied to the summary of the leading inputs with the last inputs unchanged. Gradients and log-determinant gradients follow, and every output entry is overwritten whatever the output memory held before.',
  [INP, CFG], 'all sizes, matrices, offsets, points and prior output contents',
  'Tests use square well-conditioned examples with freshly zeroed outputs.',
  [M+'AffineMap.h', 'src/AffineMap.cpp', M+'AffineFunction.h', 'src/AffineFunction.cpp', M+'IdentityMap.h', 'src/IdentityMap.cpp', M+'SummarizedMap.h', 'src/SummarizedMap.cpp'], [('formulas', 'src/AffineMap.cpp, src/AffineFunction.cpp, src/IdentityMap.cpp, src/SummarizedMap.cpp')])
P('C16', 'Transported densities obey the change of variables, with exact gradients',
  'The pullback log-density is the reference log-density at the mapped point plus the map log-determinant, the pushforward log-density is the one at the inverse point minus the log-determinant there, and the Gaussian log-density is the normal formula. Their input and coefficient gradients are the gradients of those quantities.',
  [INP, CFG], 'all maps, densities and points',
  'Signs, transposes and evaluation points can cancel in symmetric test cases; the identity must hold for every map.',
  [M+'Distributions/PullbackDensity.h', M+'Distributions/PushforwardDensity.h', 'src/Distributions/GaussianSamplerDensity.cpp', M+'Distributions/GaussianSamplerDensity.h'], [('density formulas', M+'Distributions/PullbackDensity.h, '+M+'Distributions/PushforwardDensity.h, src/Distributions/GaussianSamplerDensity.cpp')])
P('C17', 'The training objective and its gradient are consistent for every map and sample',
  'The Kullback-Leibler objective equals minus the sample average of the pulled-back log density, its gradient is the derivative of exactly that value in the coefficients, and evaluating them together or separately gives the same numbers. Averages divide by the number of samples of the data actually used.',
  [INP, CFG], 'all maps, sample matrices, sample counts and coefficient vectors',
  'The gradient is assembled from separate map and log-determinant gradients; consistency must hold for every map and sample count.',
  [M+'MapObjective.h', 'src/MapObjective.cpp'], [('KL objective', 'src/MapObjective.cpp: ObjectiveImpl, CoeffGradImpl, ObjectivePlusCoeffGradImpl')])
P('C18', 'Saving and loading reproduces a function exactly',
  'Writing a multi-index set, map options, coefficient vector or map to an archive and reading it back yields an object with equal contents that evaluates identically. Coefficients that were set are restored and unset ones stay unset.',
  [INP, CFG], 'all objects of the serialisable types',
  'Round-trip equality must hold for every object; tests serialise one or two examples.',
  [M+'Utilities/Serialization.h', M+'MapOptions.h', M+'MultiIndices/FixedMultiIndexSet.h'], [('serialisation', M+'Utilities/Serialization.h')])
P('C19', 'Array conversions preserve every element and its position',
  'Converting between raw memory, views, and matrices keeps element (i,j) at (i,j) for both storage orders and every shape including empty ones, and a conversion that shares memory shares exactly the same elements. Conversions that copy leave the source unchanged.',
  [INP, CFG], 'all shapes, storage orders and contents',
  'Layout errors cancel on square or symmetric samples; tests use few shapes.',
  [M+'Utilities/ArrayConversions.h'], [('conversions', M+'Utilities/ArrayConversions.h')])
P('C20', 'Dense linear algebra helpers compute products, solutions and determinants',
  'Matrix products, sums and transposes, and solutions and determinants from LU and Cholesky factorisations, equal their mathematical definition for every compatible shape and storage order, including accumulation into an existing matrix, strided views and empty matrices. Row and column reductions add up exactly the elements of the row or column, and operands are not changed.',
  [INP, CFG], 'all matrices and shapes',
  'Tests use 2x2 or 3x3 matrices; transposition, storage order and permutation sign interact.',
  [M+'Utilities/LinearAlgebra.h', 'src/Utilities/LinearAlgebra.cpp'], [('dgemm, LU and Cholesky wrappers', 'src/Utilities/LinearAlgebra.cpp')])
P('C21', 'Quadrature rules have the right weights and integrate componentwise',
  'A quadrature rule of a given level integrates over any interval by the affine image of its fixed points and weights, the weights sum to the interval length, and vector-valued integrands are integrated component by component. Reversed intervals change the sign, and adaptive rules accept a subinterval only when its estimated error meets the tolerance or the subdivision limit is reached, and add up the accepted pieces.',
  [INP, CFG], 'all intervals, orders, integrands and tolerances',
  'Tests integrate a few smooth functions; scaling and subdivision must be right for all intervals and vector sizes.',
  [M+'Quadrature.h'], [('rules', M+'Quadrature.h: ClenshawCurtisQuadrature, AdaptiveSimpson, AdaptiveClenshawCurtis')])
P('C22', 'Adaptive training grows the map only with admissible terms within its limits',
  'Adaptive training adds one term per step, namely the one with the largest training gradient among the terms of the reduced margins of the current sets whose degrees all stay below the configured maximum degrees. It never exceeds the configured number of terms, stops when its patience is exhausted or no term can be added, and returns a trained map over the sets with the smallest test error it saw, which it also hands back. Identical inputs give identical results.',
  [INP, HIS], 'all data sets and option settings',
  'The result depends on a data-dependent history of optimisations that tests sample a couple of times.',
  [M+'TrainMapAdaptive.h', 'src/TrainMapAdaptive.cpp'], [('greedy refinement', 'src/TrainMapAdaptive.cpp: findMaxGrad, maxDegreeRMFilter, TrainMapAdaptive')])

TECH = 'contract-based deductive verification (weakest-precondition obligations from the real source, SMT)'
NOTE = 'Every obligation is generated from the current source of /repo on every run and must be discharged by z3/cvc5 or the normaliser, for all inputs and iterations; floating point is treated as real arithmetic and library calls (math, Kokkos, STL) are trusted contracts listed in the evidence. A compiled run of the same contracts on concrete inputs (bounded, labelled) supplies counterexamples and covers what could not be brought under contract.'
CLAIMS = {   # id -> extra level note
}
exec(open(ROOT + '/tool/claims.py').read())
def main():
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='bash tool/build.sh',
               checks=[dict(property=p['id'], quick_cmd='python3-vt engine/run.py %s --tier quick' % p['id'], thorough_cmd='python3-vt engine/run.py %s --tier thorough' % p['id'],
                            evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='proof', level_note=(CLAIMS[p['id']] + ' ' if CLAIMS[p['id']] else '') + NOTE) for p in PROPS if p['id'] in CLAIMS],
               not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in PROPS if p['id'] not in CLAIMS],
               notes='Engine in engine/, contracts in contracts/, bounded runtime oracles in drivers/, extractor in tool/mpx.cpp. See DESIGN.md.')
    json.dump(man, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
main()
