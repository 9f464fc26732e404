#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table.

Development tool only; no check reads it.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id_, title, statement, over, text, why, files, mech, observe=(), technique='', note='', na=None):
  assert len(title) <= 80, title
  P.append(dict(id=id_, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=list(observe), technique=technique, note=note, na=na))


AI = 'abstract interpretation of the source (no import, no execution)'

prop('C01', 'Layers are equivariant under rotations and reflections',
     'Rotating or reflecting all feature and basis inputs of a trainable layer (embedding, dense, tensor product, '
     'fused tensor product, tensor-dense, message passing, multi-head and self attention) rotates or reflects its '
     'output in the same way, for any parameter values. Every output block stored at a given parity channel and degree '
     'transforms exactly as the irreducible representation of that parity and degree, with its components in the '
     'configured storage order.',
     ['inputs', 'configurations'],
     'all feature values and parameter values; every combination of parity channels, degrees, pseudotensor flag, '
     'component order, index format and option enumerated by the check',
     'Tests rotate a handful of random inputs for a few layer configurations within a tolerance; a broken coupling path, '
     'mask or slice for another degree/parity combination is never sampled.',
     ['e3x/nn/modules.py', 'e3x/so3/irreps.py', 'e3x/ops/indexed.py', 'e3x/nn/features.py'],
     [dict(name='per-degree dense layers, bias only on even scalars', where='e3x/nn/modules.py: Dense'),
      dict(name='coupling mask and Clebsch-Gordan contraction', where='e3x/nn/modules.py: Tensor'),
      dict(name='even/odd splitting and matrix coupling', where='e3x/nn/modules.py: FusedTensor'),
      dict(name='message passing and attention', where='e3x/nn/modules.py: MessagePass, MultiHeadAttention')],
     ['layer outputs'],
     'representation-type inference by ' + AI,
     'Each layer is typed for every enumerated structural context with symbolic-free typed components: inputs of '
     'arbitrary value, parameters arbitrary invariants, coupling tables opaque invariant tensors. Trusts the library '
     'models (jax.numpy, flax) of the analyser and that the coupling table is an invariant tensor.')

prop('C02', 'Activations only rescale each channel by a gate from its own scalar',
     'Every equivariant activation multiplies all components of a feature channel by one common factor that depends '
     'only on the scalar (degree 0, even) component of that same channel and batch entry. The resulting scalar component '
     'equals the scalar activation of that name applied to the input scalar, for every finite input.',
     ['inputs', 'configurations'],
     'all finite feature values; all activations with their options; all degrees and parity channels',
     'Tests evaluate each activation on a few random arrays; special values, other feature shapes and the far tails are '
     'never tried.',
     ['e3x/nn/activations.py'],
     [dict(name='gated linear unit', where='e3x/nn/activations.py: _gated_linear and the gate of each activation')],
     ['activation outputs'],
     'dependence/representation typing plus interval ' + AI,
     'The gate structure is decided exactly by typing; the scalar curve is compared with an independent definition of '
     'the activation on an interval partition of the real line (a violation needs disjoint enclosures).')

prop('C03', 'Feature utilities act exactly blockwise on irreps',
     'Changing the maximum degree or representation type keeps every representable block unchanged, drops '
     'the others and fills new blocks with zeros; adding features sums matching blocks of all arguments; reflecting negates exactly '
     'the odd-parity blocks; the degree masks select exactly the even or odd degrees; rotating contracts each component '
     'axis with the given matrix only.',
     ['inputs', 'configurations'],
     'all feature values; every pair of input/output degrees and parity channel counts, any number of leading axes and arguments',
     'Tests check a few shapes with random values; the mapping must hold for every degree and channel combination.',
     ['e3x/nn/features.py'],
     [dict(name='slicing, padding and parity selection', where='e3x/nn/features.py: change_max_degree_or_type, add, reflect, even_degree_mask, odd_degree_mask, rotate')],
     ['returned arrays'],
     'value-provenance analysis (value numbering) by ' + AI,
     'Every output element is shown to be the value number demanded by the specification for every enumerated shape.')

prop('C04', 'Basis functions factor into radial, cutoff, angular and damping parts',
     'Each basis feature of degree l equals the angular function of that degree evaluated at the unit direction, times '
     'the radial function of the distance, times the cutoff of the distance if one is given; damping multiplies exactly '
     'the degrees above zero. The optionally returned cutoff and norm are those of the same displacement, no displacement '
     'influences the features of another, and the features transform as irreps under rotation and reflection.',
     ['inputs', 'configurations'],
     'all displacement vectors including zero; every combination of options, component order and leading axes',
     'Tests check shapes and a few sampled values; whether every degree receives the cutoff and only degrees above zero '
     'the damping must hold for all inputs and options.',
     ['e3x/nn/wrappers.py', 'e3x/ops/safe.py', 'e3x/so3/irreps.py'],
     [dict(name='basis assembly', where='e3x/nn/wrappers.py: basis, ExponentialBasis')],
     ['basis outputs'],
     'value-provenance and representation typing by ' + AI,
     'Radial, cutoff, damping and angular functions are opaque; the product structure is decided on value numbers.')

prop('C05', 'Cutoffs, switches, windows and radial functions keep their range',
     'For every non-negative distance, cutoffs take values between 0 and 1, start at 1 at zero distance, never increase and '
     'are exactly 0 at and beyond the cutoff. For every finite argument, switches take values between 0 and 1, never decrease '
     'and are exactly 0 below and 1 above their interval. Damping '
     'stays between 0 and 1 and vanishes at zero. Window, Gaussian, Bernstein, Fourier and sinc radial functions and '
     'distance mappings stay within their documented bounds for every non-negative distance, and Chebyshev, Fourier and '
     'sinc values never exceed 1 in magnitude.',
     ['inputs', 'configurations'],
     'every non-negative distance (for cutoffs and switches any finite argument); documented parameter values, several numbers of functions',
     'Tests evaluate a few grid points; the bound and the exact support must hold between and beyond them, including at '
     'the boundary points themselves.',
     ['e3x/nn/functions/cutoff.py', 'e3x/nn/functions/switch.py', 'e3x/nn/functions/window.py',
      'e3x/nn/functions/damping.py', 'e3x/nn/functions/mappings.py', 'e3x/nn/functions/gaussian.py',
      'e3x/nn/functions/bernstein.py', 'e3x/nn/functions/chebyshev.py', 'e3x/nn/functions/trigonometric.py'],
     [dict(name='piecewise definitions guarded by where', where='e3x/nn/functions/*.py')],
     ['function values'],
     'interval ' + AI,
     'Interval enclosures on a partition of the input line that isolates the boundary points; a violation needs an enclosure '
     'entirely outside the bound (up to a rounding tolerance); cells that cannot be enclosed tightly are reported, not judged.')

prop('C06', 'Singular points give finite values and gradients',
     'Norms, normalisation, activations, cutoffs, switches, windows, mappings, radial functions and indexed softmax return '
     'finite values and finite first derivatives in single precision for every finite input of documented domain and moderate '
     'magnitude, including the singular points (zero vectors, zero scalars, interval boundaries, distances beyond the cutoff, '
     'fully masked rows).',
     ['inputs'],
     'every finite input in the documented domain with magnitude up to 1e4, including exact singular points',
     'NaN gradients appear only at isolated inputs, typically behind a branch that selects the other value; sampled tests miss them.',
     ['e3x/ops/safe.py', 'e3x/ops/indexed.py', 'e3x/nn/activations.py', 'e3x/nn/functions'],
     [dict(name='double-where guards and custom derivative rules', where='e3x/ops/safe.py, e3x/nn/functions/*.py, e3x/nn/activations.py')],
     ['values and derivatives'],
     'interval abstract interpretation of values and tangents (non-finite propagation)',
     'A dual-number interval domain with explicit NaN/inf tracking in which the unselected branch of a selection still '
     'contributes 0*inf to the derivative; a violation needs a cell on which every value is non-finite.')

prop('C07', 'Dense and sparse index formats describe the same operation',
     'Gathering, indexed sum/min/max/softmax, message passing and attention produce the same result for a neighbourhood '
     'given as a dense adjacency matrix or as the equivalent sparse pair list (minimum and maximum: for nodes with at least one '
     'neighbour). The result does not depend on the order in '
     'which neighbours or pairs are listed, and converting between the formats preserves the set of pairs.',
     ['inputs', 'configurations'],
     'all feature values; representative graphs with unequal neighbour counts, self edges, isolated nodes and batch axes',
     'Tests compare a few random graphs numerically; agreement must hold for all values and every reduction and layer.',
     ['e3x/ops/indexed.py', 'e3x/nn/modules.py'],
     [dict(name='dense and segment reductions', where='e3x/ops/indexed.py'),
      dict(name='conversions', where='e3x/ops/indexed.py: dense_to_sparse_indices, sparse_to_dense_indices')],
     ['operation outputs'],
     'value numbering by ' + AI,
     'Outputs for both formats and permuted neighbour lists are shown to be the same value numbers over uninterpreted feature values.')

prop('C08', 'Masked and padded neighbours have no influence',
     'A neighbour slot that is masked out or holds the padding index contributes nothing: changing its gathered features, '
     'basis, weights or cutoff values leaves all indexed reductions, softmax weights of other pairs, message passing and '
     'attention outputs unchanged. A neighbour whose cutoff value is zero contributes nothing to attention.',
     ['inputs', 'configurations'],
     'all values of the masked entries; dense and sparse formats, with and without explicit mask, batch axes',
     'Tests use finite sampled padding values; independence from arbitrary padding content is a non-interference statement.',
     ['e3x/ops/indexed.py', 'e3x/nn/modules.py'],
     [dict(name='where masks and dropped out-of-range segments', where='e3x/ops/indexed.py: _indexed_reduce; e3x/nn/modules.py: MessagePass, MultiHeadAttention')],
     ['operation outputs'],
     'dependence (non-interference) analysis by ' + AI,
     'The dependence sets of all outputs are computed; a masked label in the set of an output is a violation.')

prop('C09', 'Batch entries never influence each other',
     'For every operation that accepts leading axes, the result for one batch entry depends only on the inputs of that '
     'entry and equals what the operation returns for that entry alone.',
     ['inputs', 'configurations'],
     'all values; every public layer, activation, feature utility, radial function, rotation and conversion with leading axes',
     'Tests compare batched and unbatched calls for a few functions; cross-talk may only show for extreme values of another entry.',
     ['e3x/nn', 'e3x/ops', 'e3x/so3', 'e3x/matrix'],
     [dict(name='per-axis reductions and ellipsis contractions', where='e3x/nn, e3x/ops, e3x/so3, e3x/matrix')],
     ['outputs per batch entry'],
     'dependence (non-interference) analysis and value numbering by ' + AI,
     'Dependence sets per output element; plus equality of value numbers between the batched and the single call.')

prop('C10', 'Floating-point precision of inputs and settings is respected',
     'Precision is never lost: results of floating-point inputs are never of a narrower type than the inputs, with double precision '
     'inputs (64-bit mode) every operation returns double precision and no inexact intermediate value is held in a narrower type, '
     'and single precision inputs never pass through half precision. Activations, feature utilities, norms, indexed operations, '
     'cutoffs, switches, dampings and distance mappings return exactly the type of their inputs. Layers return at least the requested '
     'computation type (dense and embedding layers exactly that type, attention exactly when it is given), else the promotion of inputs '
     'and parameters, and all parameters are created in the requested parameter type.',
     ['inputs', 'configurations'],
     'float16, bfloat16, float32 and float64 inputs for every public function and layer; all dtype options',
     'Tests run almost exclusively in single precision; promotion bugs are invisible there.',
     ['e3x/nn', 'e3x/ops', 'e3x/so3'],
     [dict(name='dtype promotion', where='e3x/nn/modules.py: promote_dtype calls; constants built with default dtype')],
     ['result dtypes'],
     'dtype inference by ' + AI,
     'Exact dtype/weak-type propagation through the JAX promotion lattice; the expected result type of each function was confirmed on the real library.')

prop('C11', 'Layer options reach every place they govern',
     'Precision, computation type, parameter type, bias flags, feature counts and every initializer given to a layer are used by '
     'all sublayers, parameters and contractions they are documented to govern, and by no others. Without a bias option no additive '
     'parameter exists.',
     ['configurations'],
     'every option of every layer class, set to a distinguishable value',
     'An option that is dropped in one of many sublayer constructions changes nothing that default-valued tests can see.',
     ['e3x/nn/modules.py', 'e3x/nn/wrappers.py'],
     [dict(name='option forwarding', where='e3x/nn/modules.py: constructor calls of sublayers')],
     ['parameters and contractions of the layer'],
     'option-flow analysis by ' + AI,
     'Each option is tagged with a marker; the parameter records and contraction records of the abstract run must carry it.')

prop('C12', 'Every differentiable operation can be compiled',
     'All layers, activations, radial functions, feature utilities, conversions, rotations and indexed operations can be traced '
     'by the just-in-time compiler: no Python decision, conversion or shape depends on array contents. Only the index format '
     'conversions and the tracelessness test are excepted.',
     ['inputs', 'programs'],
     'every public operation under tracing of all array arguments; all structural configurations',
     'Most tests call functions eagerly, where branching on data works; failure appears only in user programs that compile.',
     ['e3x/nn', 'e3x/ops', 'e3x/so3', 'e3x/matrix'],
     [dict(name='static shapes and where-based selection', where='whole package')],
     ['tracing'],
     'binding-time (tracedness) analysis by ' + AI,
     'Array contents are traced values; every concretisation of a traced value is reported with its source location.')

prop('C13', 'Coupling and rotation tables do not depend on the cache history',
     'Clebsch-Gordan coefficients and Wigner-D tables returned for a requested degree contain the same entries at the same '
     'positions, and shapes of exactly the requested size, whatever was requested, cached or shipped before: no cache, smaller or '
     'larger cache, repeated or interleaved requests, one or several worker processes. Spherical harmonics and tensor conversion tables likewise '
     'depend only on the requested degree.',
     ['histories', 'configurations'],
     'all request histories up to the enumerated length over degrees, cache presence and sizes, number of processes',
     'Tests generate tables from scratch without caches; growth from a smaller cache or truncation of a larger one is not exercised.',
     ['e3x/so3/_clebsch_gordan_lut.py', 'e3x/so3/_wigner_d_lut.py', 'e3x/so3/_spherical_harmonics_lut.py',
      'e3x/so3/_tensor_conversion_lut.py', 'e3x/so3/_lookup_table_generation_utility.py', 'e3x/so3/_common.py'],
     [dict(name='incremental table generation with on-disk cache', where='e3x/so3/_*_lut.py')],
     ['table contents'],
     'value numbering over cache states by ' + AI,
     'Coefficients are opaque functions of their quantum numbers, the file system is a modelled store; the table after every '
     'history must carry the same value numbers.')

prop('C14', 'Cache faults never corrupt or prevent results',
     'A missing, unreadable, truncated or corrupted table cache, or one that cannot be written, never makes a computation fail or '
     'changes its result; the table is regenerated instead. A write that fails midway never leaves a file that a later run uses as a valid table.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every single fault at every cache access (load, parse, directory creation, write) for every table, followed by further requests',
     'Tests never inject cache faults.',
     ['e3x/so3/_lookup_table_generation_utility.py', 'e3x/so3/_clebsch_gordan_lut.py', 'e3x/so3/_wigner_d_lut.py'],
     [dict(name='guarded load and save of lookup tables', where='e3x/so3/_lookup_table_generation_utility.py')],
     ['returned tables, exceptions, cache files'],
     'exception-flow analysis over a modelled file system by ' + AI,
     'Every cache access site is made to fail in turn in the modelled file system; escaping exceptions, changed value numbers and partially written files used later are violations.')

prop('C15', 'Global configuration takes effect at the next call and only where asked',
     'Changing a global setting (component order, normalisation, fused tensor products, cache paths) affects every later call or layer '
     'construction that does not pass the option explicitly, and no call that does; invalid settings are rejected without changing '
     'anything; settings are independent of each other.',
     ['configurations', 'histories'],
     'every sequence of setter calls before, between and after imports and calls; every function with a configurable default',
     'Tests never change the configuration between calls.',
     ['e3x/config.py', 'e3x/so3/irreps.py', 'e3x/so3/rotations.py', 'e3x/nn/wrappers.py', 'e3x/nn/modules.py'],
     [dict(name='configuration class and defaults taken from it', where='e3x/config.py and all uses of Config')],
     ['call results after setter calls'],
     'value-flow analysis of configuration reads by ' + AI,
     'For each consumer the abstract result with the setting changed must equal the result with the option passed explicitly.')

prop('C16', 'Malformed requests are rejected with the documented exception',
     'Every documented misuse (invalid shapes, incompatible degrees, batch or feature sizes, missing or conflicting index arguments, negative '
     'degrees or counts, non-positive cutoffs, unknown option names, wrong dtypes) raises the documented exception type before any result is '
     'returned, for every public entry point that documents it.',
     ['inputs', 'configurations'],
     'every documented Raises clause, on representative malformed contexts at and around the boundary, with other arguments varied',
     'Tests cover some of the documented errors with one malformed example each.',
     ['e3x/nn', 'e3x/ops', 'e3x/so3', 'e3x/matrix'],
     [dict(name='argument checks', where='raise statements of the public functions')],
     ['exceptions'],
     'exceptional-path analysis by ' + AI,
     'Each malformed context is propagated through the source; returning normally, or raising another type, is a violation.')

prop('C17', 'Component order and normalisation conventions agree everywhere',
     'Spherical and solid harmonics, Clebsch-Gordan coefficients, Wigner-D matrices and tensor conversions of the same options use the same '
     'component order within each degree and the same block layout, Wigner-D matrices are block diagonal by degree, a table for a larger '
     'maximum degree extends the one for a smaller, and normalisation rescales each degree by one documented factor that cancels in a '
     'conversion round trip.',
     ['inputs', 'configurations'],
     'all component orders, normalisations and degrees enumerated by the check; all input vectors and matrices',
     'Tests compare selected functions at selected degrees with default settings.',
     ['e3x/so3/irreps.py', 'e3x/so3/rotations.py', 'e3x/so3/_common.py', 'e3x/so3/_normalization.py'],
     [dict(name='Cartesian permutation and normalisation constants', where='e3x/so3/_common.py, e3x/so3/_normalization.py')],
     ['entries of returned arrays'],
     'value-provenance (index) analysis by ' + AI,
     'Table entries are opaque labelled atoms; every output entry is matched with the label that the convention demands.')

prop('C18', 'Tensor initializers respect parity-forbidden paths and fan scaling',
     'Tensor product initializers return exactly zero for every coupling path forbidden by parity or the triangle rule, and a random draw scaled '
     'for all others by a common factor: with fan_in scaling one factor per output degree and parity, determined by the number of allowed paths into it; '
     'with fan_out one per pair of input blocks, determined by the number of paths out of it; with fan_avg by their mean. '
     'Output depends only on the key, shape and dtype.',
     ['inputs', 'configurations'],
     'every kernel shape (parity channels and degrees) enumerated by the check; every mode, distribution and dtype',
     'Tests check the empirical variance of a few shapes.',
     ['e3x/nn/initializers.py'],
     [dict(name='path mask and fan computation', where='e3x/nn/initializers.py')],
     ['initial kernels'],
     'value numbering by ' + AI,
     'Random draws are opaque atoms of unit scale; the kernel entries must be the specified multiples of them.')

prop('C19', 'Matrices built from irreps respect the symmetry',
     'Building a matrix from irreps features produces, for every pair of row and column shells and every copy, a sub-matrix that transforms under '
     'rotations by the rotation matrices of its row and column degree: each entry couples, with the Clebsch-Gordan coefficient of its row and column '
     'order, the features of every degree allowed by the triangle rule (up to the largest degree given), and every given feature belongs to exactly '
     'one sub-matrix. Shifting adds the identity; the traces are those of all square sub-matrices of each shell (minus the shift); combining features '
     'mixes only components of equal degree and order of the same batch entry, with a separate weight per shell and output; initial weights are '
     'independent normal draws with the standard deviation divided by sqrt(2l+1).',
     ['inputs', 'configurations'],
     'all feature values; all degree combinations, multiplicities and degree limits enumerated by the check',
     'The tests compare traces of randomly rotated samples for three degree lists; an exchanged copy or feature keeps those invariant.',
     ['e3x/matrix/matmat.py'],
     [dict(name='Clebsch-Gordan block assembly, feature bookkeeping, traces', where='e3x/matrix/matmat.py')],
     ['matrices, traces, combined features, initial weights'],
     'bi-index representation typing by ' + AI,
     'As C01, with matrix entries typed by a row and a column component.')

prop('C20', 'Operations are pure',
     'No public operation modifies its arguments, global configuration or module state other than memoised tables, and random results depend only on the '
     'given key, with distinct uses drawing from distinct subkeys. Repeating a call with equal arguments gives the same result.',
     ['histories', 'programs', 'inputs'],
     'every public operation; every pair of calls in sequence',
     'Aliasing, hidden caches and key reuse are invisible to tests that call each function once.',
     ['e3x'],
     [dict(name='functional style, split keys', where='whole package; e3x/so3/rotations.py, e3x/nn/initializers.py')],
     ['arguments after the call, module globals, random keys'],
     'effect and alias analysis by ' + AI,
     'All operations are interpreted in one instance of the package in several orders and the result terms are compared; arguments, settings and key uses are compared before and after.')

prop('C21', 'Layers connect everything that symmetry allows',
     'Every output block of a tensor product layer receives a separately weighted contribution from every pair of input blocks '
     'whose coupling is allowed by the triangle and parity rules within the requested degrees, and dense layers connect every input feature to '
     'every output feature within each degree; outputs have exactly the documented shape. No two coupling paths or degrees share a weight.',
     ['configurations', 'inputs'],
     'every combination of parity channels, degrees and options enumerated by the check',
     'A silently dropped or tied path keeps the layer equivariant and of the right shape, so no symmetry test notices.',
     ['e3x/nn/modules.py'],
     [dict(name='coupling mask, kernel indexing', where='e3x/nn/modules.py: Dense, Tensor, FusedTensor')],
     ['dependence of outputs on inputs and parameters'],
     'dependence (path completeness) analysis by ' + AI,
     'Monomials of the abstract output over uninterpreted inputs and parameters are matched with the set of allowed paths.')

prop('C22', 'Quadrature requests get a rule of sufficient precision',
     'A requested precision returns the smallest available rule that is at least as precise (the most precise rule, with a warning, when '
     'none is); a requested number of points returns the largest available rule with at most that many points (the smallest rule when none is). '
     'The returned points and weights belong to the same rule, exactly one of precision and number must be given, and grid data that cannot be read '
     'is reported as RuntimeError.',
     ['inputs', 'configurations'],
     'every integer precision and number of points',
     'Tests try some of the precisions.',
     ['e3x/so3/quadrature.py'],
     [dict(name='rule selection', where='e3x/so3/quadrature.py')],
     ['returned grid'],
     'exhaustive enumeration by ' + AI,
     'Decides rule selection, not the numerical exactness of the shipped grids.')

prop('C23', 'Rotation constructors always return proper rotations',
     'For every axis, angle, Euler angles or random draw, the constructed matrix is orthogonal with determinant one and turns row vectors '
     'counterclockwise about the given axis (Euler angles: about x, then y, then z); the inverse angle gives the transposed matrix; the rotation that '
     'aligns one direction with another maps the first onto the second along the shortest arc, including parallel and antiparallel directions; Euler angles '
     'extracted from a rotation reproduce it, also in gimbal lock; random rotations are uniformly distributed at full perturbation, never turn by more than '
     'the requested fraction of a half turn, and are the identity at zero perturbation.',
     ['inputs'],
     'all real angles and all non-zero vectors',
     'Tests sample random rotations; degenerate directions have measure zero.',
     ['e3x/so3/rotations.py'],
     [dict(name='Rodrigues formula, Euler products, quaternion map', where='e3x/so3/rotations.py')],
     ['returned matrices'],
     'term extraction and analytic identity testing by ' + AI,
     'Matrix entries are extracted as closed terms over sin/cos/norms of the inputs; the identities are decided on these terms, degenerate strata separately.')

prop('C24', 'Radial, cutoff and mapping functions follow their closed forms',
     'Every scalar function of a distance (cutoffs, switches, windows, dampings, distance mappings, the basic radial functions and their '
     'reciprocal and exponential variants) has the value of its documented closed form for every argument of its documented domain, every '
     'number of functions and every option (cutoff or limit, exponent, decay constant, weighting, kind).',
     ['inputs', 'configurations'],
     'every argument in the documented domain (Bernstein and Chebyshev: within the limit); several numbers of functions and option values',
     'Tests compare a few grid points at one parameter setting with stored numbers.',
     ['e3x/nn/functions'],
     [dict(name='closed forms', where='e3x/nn/functions/*.py')],
     ['function values'],
     'interval comparison of the source with independent closed forms by ' + AI,
     'Source and an independently written definition are enclosed on the cells of a partition of the argument line; disjoint '
     'enclosures are a violation. Differences below the enclosure width (or below single-precision tolerance) are not seen.')

prop('C25', 'Derivatives belong to the values computed',
     'The derivative obtained by automatic differentiation of every scalar function, activation and norm equals the derivative of the value '
     'the function computes, at every point of differentiability of its documented domain, including operations with a hand-written '
     'derivative rule.',
     ['inputs', 'configurations'],
     'every argument of documented domain and moderate magnitude; all options of the norm (axis, keepdims)',
     'Tests compare gradients at sampled points of one configuration.',
     ['e3x/ops/safe.py', 'e3x/nn/functions', 'e3x/nn/activations.py'],
     [dict(name='custom_jvp rules and guarded branches', where='e3x/ops/safe.py, e3x/nn/functions/switch.py, e3x/nn/functions/bernstein.py')],
     ['derivatives'],
     'interval comparison of source tangents with independent derivatives, and symbolic differentiation of hand-written rules, by ' + AI,
     'Tangents propagated through the source (custom rules included) are compared with the derivative of the independent closed form on '
     'a partition; hand-written rules of the norm are also compared as value numbers.')

prop('C26', 'Message passing sums messages and attention averages them',
     'The message-passing result at a node is the sum over its neighbours of the message each neighbour alone would give; a message is '
     'proportional to its pair weight and linear in the neighbour features, and nodes without neighbours receive zero (attention: the output '
     'bias only). With one head, attention at a node is a weighted average of the results of the single neighbours, with one non-negative '
     'weight per neighbour, common to all components, summing to one and proportional to the cutoff value of the pair, whose logarithm of '
     'ratios is linear in the query features and in the key features when these projections have no bias; with several heads, equal '
     'neighbours give the result of one of them.',
     ['graphs', 'inputs', 'parameters', 'configurations'],
     'every neighbourhood, features, basis, weights, cutoffs and parameter values; dense and sparse format',
     'Tests compare dense with sparse results or shapes; no test relates the result of a graph to those of its pairs.',
     ['e3x/nn/modules.py', 'e3x/ops/indexed.py'],
     [dict(name='message passing and attention', where='e3x/nn/modules.py: _Conv, MessagePass, MultiHeadAttention, SelfAttention'),
      dict(name='softmax normalisation', where='e3x/ops/indexed.py: indexed_softmax')],
     ['layer results on a graph and on its single pairs'],
     'term comparison between runs on a graph and on its single pairs, by ' + AI,
     'Result terms over uninterpreted features, basis, weights, cutoffs and parameters are compared between the graph and its single-pair '
     'subgraphs; attention weights are solved from interpretations of the terms.')

prop('C27', 'Helper predicates and derivative helpers are exact',
     'The tracelessness test accepts a tensor exactly when every batch entry is symmetric under all permutations of its tensor axes and has no '
     'trace, within the given tolerances; evaluated derivatives of order i are the i-fold derivative of the function at every entry; the inverse '
     'softplus inverts softplus on positive arguments, so that the exponential basis starts with the requested decay constant; the broadcast '
     'test decides exactly the broadcasting rule.',
     ['inputs', 'configurations'],
     'every tensor degree, batch shape, derivative order, positive argument and pair of shapes',
     'Tests sample a few tensors and orders.',
     ['e3x/so3/irreps.py', 'e3x/ops/helpers.py', 'e3x/nn/wrappers.py', 'e3x/util.py'],
     [dict(name='helpers', where='e3x/so3/irreps.py: is_traceless_symmetric; e3x/ops/helpers.py; e3x/util.py; e3x/nn/wrappers.py: ExponentialBasis')],
     ['decisions and results of the helpers'],
     'decision and derivative terms extracted by ' + AI,
     'Decisions are extracted as terms over uninterpreted tensor elements and valued on strata; derivative results are compared as terms.')

prop('C28', 'Layers compute their documented formulas',
     'Dense, Tensor, FusedTensor, TensorDense, MessagePass and Embed compute exactly the documented sums: the output block of each parity and '
     'degree is the weighted sum of the coupled input blocks (one weight per path and feature, coupling coefficients in the documented '
     'orientation, contributions of scalar pairs uncoupled, bias on even scalars only), without further factors, terms or nonlinear dependence on the weights; '
     'TensorDense couples two separate projections of its input and MessagePass couples the filters computed from the basis with the source features; Embed '
     'returns the row of the requested index.',
     ['configurations', 'inputs'],
     'every combination of parity channels, degrees and options enumerated by the check, every feature and weight value',
     'A wrong factor or a coefficient tensor used in the wrong orientation keeps shapes (and often equivariance), so sampled symmetry tests pass.',
     ['e3x/nn/modules.py'],
     [dict(name='layer formulas', where='e3x/nn/modules.py: Embed, Dense, Tensor, FusedTensor, TensorDense, _Conv, MessagePass')],
     ['coefficients, coupling coefficients and weights of each output monomial'],
     'monomials of the outputs extracted by ' + AI,
     'Each output component is expanded into monomials over uninterpreted inputs, weights and coupling coefficients and compared with the documented sum.')

prop('C29', 'Shipped constant tables obey the laws that define them',
     'Every shipped quadrature rule has unit points and weights that integrate all spherical harmonics up to its listed precision exactly (up to '
     'rounding); the shipped spherical harmonics table lists each monomial once and holds the coefficients of the real Racah-normalised solid harmonics in '
     'the documented order; the shipped conversion tables map the harmonics of a vector to its symmetric traceless tensor power and back.',
     ['inputs'], 'every rule, degree, order and monomial in the shipped files',
     'Tests integrate a few harmonics and convert a few tensors.',
     ['e3x/so3/_lebedev_grids.npz', 'e3x/so3/_delley_grids.npz', 'e3x/so3/_spherical_harmonics_lut.npz', 'e3x/so3/_tensor_conversion_lut.npz'],
     [dict(name='shipped constants', where='e3x/so3/*.npz')], ['integrals, coefficients'],
     'constant-data analysis of the shipped tables (read as data, nothing of the package is executed)',
     'Each constant is compared with the defining law computed independently with exact arithmetic or recurrences.')

prop('C30', 'Generated coupling, harmonics and rotation tables are right',
     'Tables generated for any degree hold the values defined by the theory of angular momentum: spherical harmonics coefficients are those of the '
     'real Racah-normalised solid harmonics, Clebsch-Gordan coefficients are the coupling coefficients of these harmonics (zero where the selection rules '
     'demand it), the Wigner-D monomials evaluate to the matrices that rotate the harmonics, and the conversion matrices map the harmonics of a vector '
     'to its symmetric traceless tensor power and back.',
     ['inputs'], 'every degree up to the bound of the check (harmonics 10, coupling 3 for whole tables and selected blocks up to 6, rotations 5, conversions 6), every order',
     'Tests compare low degrees with reference tables.',
     ['e3x/so3/_symbolic.py', 'e3x/so3/_clebsch_gordan_lut.py', 'e3x/so3/_spherical_harmonics_lut.py', 'e3x/so3/_wigner_d_lut.py', 'e3x/so3/_tensor_conversion_lut.py'],
     [dict(name='symbolic generation', where='e3x/so3/_symbolic.py; e3x/so3/_*_lut.py: _generate_*_lookup_table')], ['table values'],
     'exact-domain values of the table entries derived by ' + AI,
     'The symbolic algebra library is modelled by an exact domain; entries are compared with independently derived coefficients.')

prop('C31', 'Default initialisation gives outputs zero mean and unit variance',
     'With default initializers and independent inputs of zero mean and unit variance, every output entry of Dense and Tensor that some admissible '
     'coupling path reaches has zero mean and unit variance over the random draws, for any number of features, parity channels and degrees; entries '
     'no path reaches are zero. The same holds for the scalar outputs of FusedTensor, for all its outputs when all maximum degrees agree and are even, and for TensorDense '
     'up to the fraction of feature pairs that share their Dense input.',
     ['inputs', 'configurations'], 'every combination of parity channels, include_pseudotensors and degrees up to the bound of the check',
     'Tests check a few configurations statistically.',
     ['e3x/nn/initializers.py', 'e3x/nn/modules.py'],
     [dict(name='fan computation', where='e3x/nn/initializers.py: tensor_lecun_normal, fused_tensor_normal'), dict(name='variance targets', where='e3x/nn/modules.py: FusedTensor.__call__')], ['output variance'],
     'second moments of the output polynomials derived by ' + AI,
     'Moments of the library draws are contracts; coupling coefficients are derived independently.')
prop('C32', 'Second derivatives are finite and belong to the function',
     'Differentiating twice (forces of an energy that are trained on, or Hessians) gives finite numbers that agree with the second derivative of '
     'the function, for every radial function, cutoff, switch, damping, mapping and activation at every input of moderate magnitude including '
     '0, interval boundaries and underflow thresholds, and for norm, normalize and normalize_and_return_norm of the zero vector and of vectors of moderate length. '
     'This includes the mixed terms that arise when the value and the derivative of a function with a hand-written derivative rule are both differentiated.',
     ['inputs'], 'every input of the partition of the axis (absolute values up to 1e4), every parameter value of the registry',
     'Tests evaluate second derivatives at a few points, if at all; the failures sit in narrow intervals next to singular points.',
     ['e3x/nn/functions/switch.py', 'e3x/nn/functions/cutoff.py', 'e3x/nn/functions/damping.py', 'e3x/nn/functions/window.py', 'e3x/nn/functions/mappings.py',
      'e3x/nn/functions/gaussian.py', 'e3x/nn/functions/bernstein.py', 'e3x/nn/functions/chebyshev.py', 'e3x/nn/functions/trigonometric.py', 'e3x/nn/activations.py', 'e3x/ops/safe.py'],
     [dict(name='derivative rules', where='e3x/nn/functions/switch.py: _smooth_switch_jvp_impl; e3x/ops/safe.py: _norm_jvp_impl'), dict(name='masking of singular branches', where='e3x/nn/functions: jnp.where with safe operands')], ['jax.grad(jax.grad(f)), jax.jacfwd(jax.grad(f))'],
     'interval abstract interpretation of a forward tangent over reverse derivatives, with NaN/inf tracking, by ' + AI,
     'Cells on which non-finiteness can neither be shown nor excluded are not alarmed; closed forms are written independently.')


def main():
  have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'e3xsa', 'checks')) if f.startswith('c') and f.endswith('.py')}
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps(dict(
          id=p['id'], title=p['title'], statement=p['statement'],
          quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
          anchors=dict(files=p['files'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None))) + '\n')
  man = dict(version=1, setup_cmd='python3-vt -c "import numpy, sys; sys.path.insert(0, \'.\'); import e3xsa.run"',
             checks=[], not_applicable=[])
  for p in P:
    if p['na']:
      man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    elif p['id'] in have:
      man['checks'].append(dict(
          property=p['id'], quick_cmd=f'python3-vt check.py {p["id"]} --tier quick',
          thorough_cmd=f'python3-vt check.py {p["id"]} --tier thorough',
          technique=p['technique'], level='other', level_note=p['note']))
    else:
      man['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


main()
