#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only to avoid hand-escaping JSON)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

add('P01', 'Groups obey the group laws and subgroup embeddings are homomorphisms',
    'Every cyclic, dihedral, SO(2) and O(2) group composes and inverts its elements exactly like the planar rotations and reflections they stand for, stays closed, and recognises its own elements and no others. For every subgroup a user can request, the map into the parent is an injective homomorphism, and the map back returns the matching subgroup element for every parent element inside the subgroup and nothing for every element outside it, also along chains of nested subgroups.',
    ['inputs', 'configurations'], 'all groups C_N, D_N up to the bound and SO(2), O(2) on finite closed angle lattices; all element pairs/triples; all subgroup ids; all chains of two subgroups',
    'There are quadratically/cubically many element combinations per group and one subgroup map per id; unit tests sample a few orders and ids.',
    ['e2cnn/group/group.py', 'e2cnn/group/groups/cyclicgroup.py', 'e2cnn/group/groups/dihedralgroup.py', 'e2cnn/group/groups/so2group.py', 'e2cnn/group/groups/o2group.py', 'e2cnn/group/groups/factory.py'],
    [('element algebra', 'combine/inverse/equal/is_element of each group class'), ('subgroup maps', 'subgroup(id) parent and child mappings')])

add('P02', 'Every representation is a homomorphism equal to its stated decomposition',
    'Every representation the library builds (irreducible, regular, quotient, induced, restricted, direct sum, changed basis, concatenated) multiplies matrices exactly as the group multiplies elements, sends the identity to the identity, and equals its stated change of basis applied to the direct sum of its stated irreducible constituents. The irreducible representations of a group are pairwise inequivalent, irreducible, orthogonal and complete, and the reported character, size and triviality agree with the matrices. Splitting a representation into its finest block diagonal parts gives parts and a change of basis that reassemble it exactly.',
    ['inputs', 'configurations'], 'all groups in the bound, all their irreps, regular, all quotient and induced representations over all subgroups, all direct sums of up to k representations from the alphabet; every pair of group elements (Cayley graph edges)',
    'A wrong sign in one irrep at one element of one order is invisible unless that order, irrep and element pair are multiplied out.',
    ['e2cnn/group/representation.py', 'e2cnn/group/irrep.py', 'e2cnn/group/group.py', 'e2cnn/group/utils.py'],
    [('construction', 'representation.py: directsum, change_basis, disentangle, build_* functions'), ('irreps', 'irrep() of each group class')])

add('P03', 'Regular, quotient and induced representations permute cosets as defined',
    'The regular representation permutes the basis indexed by the group elements by left translation, and a quotient representation permutes the cosets of its subgroup by left translation with the trivial coset stabilised exactly by the subgroup. An induced representation permutes blocks indexed by the cosets in the same way, the block of the trivial coset restricts to the inducing representation on the subgroup, and its character is the Frobenius induced character.',
    ['inputs', 'configurations'], 'all groups in the bound, all subgroups of each, all irreps of each subgroup, all group elements',
    'Wrong coset orderings or wrong stabilisers still give a valid homomorphism of the right size, so homomorphism tests pass.',
    ['e2cnn/group/representation.py', 'e2cnn/group/group.py', 'e2cnn/group/groups/o2group.py'],
    [('regular', 'build_regular_representation'), ('induction', 'build_induced_representation, quotient_representation, O2._induced_from_irrep')])

add('P04', 'Restriction to a subgroup commutes with evaluation and with the plane action',
    'Restricting a representation to any subgroup gives a representation of that subgroup that takes, at every subgroup element, the same matrix as the original at the embedded element. Restricting a symmetry space gives a space whose elements act on images of the plane exactly as their embedded elements did, and restricting field types does both at once without changing any channel. This also holds through chains of successive restrictions.',
    ['inputs', 'configurations', 'histories'], 'all groups in the bound x all subgroup ids x all representations in the alphabet x all subgroup elements; all gspaces (all axes in the lattice) x all subgroup ids x all elements; chains of length two',
    'The reflection axis, rotation order and change of basis interact; each id has its own code path and tests cover a handful.',
    ['e2cnn/group/group.py', 'e2cnn/group/groups/*.py', 'e2cnn/gspaces/r2/*.py', 'e2cnn/nn/field_type.py', 'e2cnn/nn/modules/restriction_module.py'],
    [('restricted irreps', '_restrict_irrep of each group'), ('restricted spaces', 'restrict() of each gspace'), ('fields', 'FieldType.restrict, RestrictionModule')])

add('P05', 'Steerable kernel bases are equivariant, independent and complete',
    'For every symmetry space, reflection axis and pair of field representations, every sampled basis kernel satisfies the steerability constraint at every group element and every sampled point. The basis elements are linearly independent and span all equivariant kernels with the requested rings and angular frequencies (by maximum frequency or by maximum offset), and the attributes reported for each element (radius, frequency, order of the elements) describe that element. A space of kernels that contains only zero is reported as empty.',
    ['inputs', 'configurations'], 'all gspaces in the bound x all ordered pairs of irreps (and regular, quotient, mixed representations) x frequency limits x rings x all group elements x sample points',
    'Each (group, irrep pair, frequency) combination has its own analytic solution; a missing or duplicated solution only reduces expressiveness, which no equivariance test can see.',
    ['e2cnn/kernels/*.py', 'e2cnn/gspaces/r2/*.py'],
    [('angular solutions', 'kernels/irreps_basis.py'), ('steerable basis', 'kernels/steerable_basis.py, kernels/r2.py'), ('radial profiles', 'kernels/basis.py')])

add('P06', 'Steerable differential operator bases are equivariant, complete and exact',
    'For every symmetry space and pair of field representations the basis differential operators are equivariant polynomials in the derivatives, linearly independent, and span all equivariant operators with the requested frequency and power limits. The finite difference stencil of an operator applied to any polynomial the stencil must resolve yields the exact derivative, in the axis convention of the pixel grid, and stencils turn with the grid under quarter turns and reflections. Of kernel size, accuracy and maximum order, a layer works out the third one such that the stencils have that accuracy.',
    ['inputs', 'configurations'], 'all gspaces in the bound x all ordered irrep pairs x frequency/power limits x all group elements; all monomial derivatives up to the order bound x all monomial test functions the accuracy covers x all odd grid sizes in the bound',
    'Every derivative order and grid size has its own stencil; tests check a few operators and only quarter rotations.',
    ['e2cnn/diffops/*.py'],
    [('polynomial solutions', 'diffops/irreps_basis.py'), ('assembly', 'diffops/steerable_basis.py, basis.py'), ('discretisation', 'diffops/utils.py')])

add('P07', 'What is built does not depend on what was built before',
    'Groups, representations, restrictions, kernel and operator bases, filters of layers and images under group elements are pure functions of their arguments: in every order of construction within a process, each construction succeeds or fails and returns the same values as it does alone in a fresh process. In particular shared caches never hand an object built for one symmetry, reflection axis, representation, discretisation or set of limits to a request for another.',
    ['histories'], 'all ordered sequences (up to the depth bound) of construction operations over an operation alphabet chosen per cache',
    'The library keeps process-wide caches keyed by names and partial arguments; only particular pairs of requests in a particular order collide.',
    ['e2cnn/gspaces/r2/general_r2.py', 'e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py', 'e2cnn/kernels/irreps_basis.py', 'e2cnn/group/group.py', 'e2cnn/diffops/utils.py', 'e2cnn/diffops/basis.py'],
    [('kernel cache', 'GeneralOnR2.build_kernel_basis/build_diffop_basis'), ('filter cache', 'block_basisexpansion(recompute=False)'), ('group caches', 'factories, subgroup, quotient/induced representation caches'), ('stencil cache', 'diffops/utils.py')])

add('P08', 'Convolution layers commute with the grid symmetries in every configuration',
    'Steerable convolutions, transposed convolutions and differential-operator layers commute exactly with every quarter turn and grid reflection in their symmetry group, acting jointly on pixels and fibers, for all weights, biases and inputs and for every combination of kernel size, padding, padding mode, stride, dilation, groups and bias for which the sampling grid itself is symmetric. They are linear in input and parameters, commute with pixel translations, and restrict the bias to the invariant subspace, spanning it. Between lists of fields, in any order, a layer acts between each pair of fields exactly like the layer between that pair alone, and the names and attributes of the basis elements describe the kernels which the weights of the same index scale.',
    ['inputs', 'configurations'], 'all configurations in the bound x all unit weight vectors x all unit impulses x all lattice symmetries in the group (by bilinearity this covers all weights and inputs)',
    'The repository tests of these layers are statistical (one image, loose tolerance) and each samples a few configurations.',
    ['e2cnn/nn/modules/r2_conv/*.py'],
    [('filter expansion', 'basisexpansion_blocks.py, basisexpansion_singleblock.py'), ('layers', 'r2convolution.py, r2_transposed_convolution.py, r2diffop.py')])

add('P09', 'Layers stay consistent through train, eval, update, save and load histories',
    'After any sequence of switching between training and evaluation mode, changing weights in training mode, saving and loading parameters between layers in evaluation mode, copying, and exporting, the output of a convolution-type layer equals the convolution with the filter expanded from its current parameters. In evaluation mode repeated calls give identical results, and none of these operations changes the parameters, the mode, or the output of another layer.',
    ['histories'], 'all operation sequences up to the depth bound over the alphabet {train, eval, forward, update, save, load, export, copy} on each layer class',
    'The cached filter exists only between particular mode switches; staleness needs a specific order of three or four operations.',
    ['e2cnn/nn/modules/r2_conv/r2convolution.py', 'e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py', 'e2cnn/nn/modules/r2_conv/r2diffop.py'],
    [('filter lifecycle', 'train(), forward(), export(), state_dict buffers')])

add('P10', 'Exported modules compute the same function as the equivariant original',
    'Whenever a module can be converted to a plain framework module, the converted module maps every tensor to the same values and the same shape as the original in evaluation mode, for every constructor configuration, including inside sequential containers. A configuration that cannot be converted raises an error instead of giving a different function, and conversion leaves the function of the original unchanged.',
    ['configurations', 'inputs'], 'every exportable module class x every constructor configuration in the bound x every input of the enumerated alphabet',
    'Tests export each class in one or two configurations; a constructor argument dropped during conversion is invisible in the others.',
    ['e2cnn/nn/modules/*.py', 'e2cnn/nn/modules/*/*.py'],
    [('conversion', 'export() of every module')])

add('P11', 'The announced output shape is the shape of the output',
    'For every module and every constructor configuration, the output shape announced for an input shape is the shape of the tensor the module actually returns for such an input, and the output has exactly the channels of its declared output type. This includes modules composed of other modules and rectangular inputs.',
    ['configurations', 'inputs'], 'every module class x every constructor configuration in the bound x every input shape in the bound',
    'Shape formulas branch on padding, stride, dilation, ceiling mode and size arguments; the tests never compare them with the output.',
    ['e2cnn/nn/modules/*.py', 'e2cnn/nn/modules/*/*.py'],
    [('shape formula', 'evaluate_output_shape() of every module')])

add('P12', 'Non-linearities and invariant maps are equivariant and compute their definition',
    'Every non-linearity (pointwise, concatenated, norm, gated, induced norm, induced gated, vector field) and every invariant map (group pooling, norm pooling, induced norm pooling) commutes with every group element acting on the fibers, for every admissible field type in any order of fields, any bias parameters and any input. Each computes field by field exactly its documented function, independently of how fields are interleaved or which other fields are present, and refuses field types for which it would not be equivariant.',
    ['inputs', 'configurations'], 'all groups in the bound x all field lists up to the length bound over the representation alphabet (all orders, contiguous and interleaved) x all fiber vectors over the value alphabet x all group elements',
    'The implementations group fields by size and use different code for contiguous and interleaved fields; tests use one field order.',
    ['e2cnn/nn/modules/nonlinearities/*.py', 'e2cnn/nn/modules/invariantmaps/*.py'],
    [('field grouping', '_contiguous/indices logic in each module'), ('admissibility', 'supported_nonlinearities of representations')])

add('P13', 'Batch normalisation follows its statistics definition and stays equivariant',
    'After every sequence of training batches, evaluation batches, resets and mode switches, each field batch normalisation outputs what its documented formula gives for statistics accumulated over that history per field, in any order and interleaving of fields. Statistics change only in training mode, evaluation is deterministic and does not depend on the other samples in the batch, and the output commutes with the group in both modes.',
    ['histories', 'inputs', 'configurations'], 'all operation sequences up to the depth bound over {train batch A, train batch B, eval batch, reset, mode switches} x field lists in the bound x momentum/affine settings',
    'Running statistics depend on the history; tests run single batches in one field order.',
    ['e2cnn/nn/modules/batchnormalization/*.py'],
    [('statistics', 'forward() and _compute_statistics'), ('affine parameters', 'weight/bias per field')])

add('P14', 'Pooling, upsampling, masking and dropout respect fields and grid symmetries',
    'Spatial pooling, upsampling and masking compute their documented function channel by channel or field by field and commute with all group elements on the fibers and with all quarter turns and grid reflections when the sampling grid is symmetric. Field dropout keeps or drops the whole vector of each field at each point with the documented rescaling for every probability, in place or not, and both dropouts are the identity in evaluation mode. None of them alters its input unless asked to work in place.',
    ['inputs', 'configurations'], 'all configurations in the bound x field lists in the bound x enumerated images x all group elements x all dropout mask outcomes',
    'Dropped arguments, interleaved field orders and in-place paths are separate code paths that tests do not combine.',
    ['e2cnn/nn/modules/pooling/*.py', 'e2cnn/nn/modules/dropout/*.py', 'e2cnn/nn/modules/r2upsampling.py', 'e2cnn/nn/modules/masking_module.py'],
    [('pooling', 'pointwise_max.py, pointwise_avg.py, norm_max.py, adaptive'), ('dropout', 'dropout/field.py'), ('upsampling', 'r2upsampling.py')])

add('P15', 'Field tensors behave as lists of typed fields under every operation sequence',
    'Slicing, splitting, concatenating, adding, subtracting, scaling and transforming field tensors, in any sequence, gives exactly the fields, types and values that the same operations give on a plain list of typed arrays, keeps every channel attached to its representation, and never changes an argument other than the target of an in-place operation. Operations that mix different types are refused. Transforming by group elements is a group action: the identity does nothing and composing two lattice symmetries equals transforming by their product.',
    ['histories', 'inputs'], 'all operation sequences up to the depth bound over the operation alphabet (all slices, splits, element pairs, operand types in the bound)',
    'Indexing has many branches (negative, stepped, ellipsis, empty) whose composition tests do not cover.',
    ['e2cnn/nn/geometric_tensor.py', 'e2cnn/nn/field_type.py', 'e2cnn/gspaces/gspace.py', 'e2cnn/gspaces/r2/utils.py'],
    [('indexing', 'GeometricTensor.__getitem__, split, tensor_directsum'), ('arithmetic', '__add__/__mul__/in-place variants'), ('transform', 'transform, transform_fibers, _basespace_action')])

add('P16', 'Structural modules route every field to its declared place',
    'Branching, merging, per-label processing, reshuffling, disentangling, restriction, sequential and list containers deliver every input field, unchanged or processed by exactly the module it was assigned to, at the position announced by the output type, for every labelling and permutation. Disentangling and restriction change only the basis, so the output transforms under the group according to its declared type. Building one such module never changes the arguments it was built from.',
    ['configurations', 'inputs'], 'all labellings of up to n fields with up to k labels, all permutations up to n, all field lists in the bound, all unit input vectors',
    'Whether fields with the same label are contiguous selects different code; the number of labellings is exponential.',
    ['e2cnn/nn/modules/branching_module.py', 'e2cnn/nn/modules/merge_module.py', 'e2cnn/nn/modules/multiple_module.py', 'e2cnn/nn/modules/reshuffle_module.py', 'e2cnn/nn/modules/disentangle_module.py', 'e2cnn/nn/modules/restriction_module.py', 'e2cnn/nn/modules/sequential_module.py', 'e2cnn/nn/modules/module_list.py', 'e2cnn/nn/modules/utils.py', 'e2cnn/nn/field_type.py'],
    [('routing', 'BranchingModule/MergeModule index buffers'), ('permutation', 'ReshuffleModule, FieldType.sorted/index_select')])

add('P17', 'Types are compared by what they mean and mismatches are always refused',
    'Two symmetry spaces or field types compare equal exactly when they describe the same symmetry acting the same way on the plane and the same sequence of representations, equality is an equivalence, and equal objects have equal hashes. Every module refuses an input whose type differs from its declared input type, and containers and layers refuse incompatible types at construction; the result of a module always carries its declared output type.',
    ['configurations', 'inputs'], 'all ordered pairs (and triples) of symmetry spaces and field types in the alphabet; every module class x every wrong input type in the alphabet',
    'A missing comparison only shows for the one pair of types that differ in that respect.',
    ['e2cnn/gspaces/r2/*.py', 'e2cnn/nn/field_type.py', 'e2cnn/group/representation.py', 'e2cnn/nn/modules/*.py'],
    [('equality', '__eq__/__hash__ of gspaces, groups, representations, field types'), ('dynamic checks', 'assert input.type == self.in_type in each forward')])

add('P18', 'Weight initialisation has its documented scale and structure',
    'The default initialisation draws every weight with zero mean and a standard deviation such that, for every output irreducible field, the variance is shared equally first among the contributing kinds of input irreducible fields and then among the basis elements of each kind, summing to one. The delta-orthogonal initialisation produces a filter that is zero away from the centre and whose central matrix is an isometry between the smaller and the larger of the matching parts of the field types. Both depend only on the layer and the random generator, in every field order.',
    ['configurations', 'inputs'], 'all pairs of field types in the bound x kernel sizes; every weight of each layer, with the random draws replaced by enumerated unit draws',
    'Statistical tests of variance cannot see a wrong share of one irreducible field; field order and multiplicity change the bookkeeping.',
    ['e2cnn/nn/init.py', 'e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py'],
    [('variances', 'generalized_he_init'), ('isometry', 'deltaorthonormal_init'), ('attributes', 'get_basis_info')])

add('P19', 'Persisting the stencil cache never changes or corrupts results',
    'Storing the cache of discretised operators to a file and loading it, in any order with computations and in any number of processes, leaves every later result identical to one computed from scratch, and a stored cache is available again after loading it in a new process. If storing is interrupted at any point or the file is truncated at any byte, loading either raises an error or yields only correct entries, later computations stay correct, and interrupting a store does not lose the cache stored before.',
    ['histories', 'crash_points'], 'all sequences up to the depth bound over {compute, store, load, new process} x every truncation point of the written file x every write boundary',
    'Corruption needs a crash at a particular byte followed by a load; the test stores and loads once in one process.',
    ['e2cnn/diffops/utils.py'],
    [('persistence', 'store_cache, load_cache'), ('lookup', 'discretize_homogeneous_polynomial')])

add('P20', 'Gradients are the derivatives of what modules compute',
    'For every module, configuration, mode and generic input, back-propagation delivers to the input and to every trainable parameter the derivative of the computed output, in every sequence of mode switches, passes, updates, copies and reloads; passes can be repeated in evaluation mode, where gradients still reach the input (the parameters of convolutions, whose filters are then stored, may receive none). The batch normalisations by field norms treat their statistics as constants. Gradients are finite where fields vanish.',
    ['inputs', 'configurations', 'histories'], 'all modules and configurations in the bound x every coordinate of the input and of every parameter; all sequences up to the depth bound over {train, eval, forward and backward, update, reload, copy}',
    'Training quietly degrades when one coordinate of one configuration receives a wrong or no gradient; no test compares gradients.',
    ['e2cnn/nn/modules/**/*.py'],
    [('forward passes', 'every EquivariantModule.forward'), ('stored filters', 'R2Conv.train, R2ConvTransposed.train, R2Diffop.train'), ('statistics', 'batchnormalization/*.py')])

add('P21', 'The kernels of a layer are exactly the ones its arguments ask for',
    'For every symmetry, pair of fields and setting, the filters a convolution or transposed convolution can express are exactly the span, sampled on the pixel grid spaced by the dilation, of the equivariant kernels on the requested rings (by default 0, 1, ... (kernel_size - 1) // 2 times the dilation) with the requested widths and all angular frequencies up to the cutoff of the ring (radius times the factor, or the function given), restricted by maximum_offset and by basis_filter; those of a differential operator layer exactly the equivariant operators of order up to the maximum and Laplacian power up to the maximum. Each weight carries the ring, frequency and order of the kernel it scales.',
    ['inputs', 'configurations'], 'all symmetry spaces, pairs of representations, kernel sizes, rings, widths, cutoffs, dilations, offsets, filters and orders within the bounds',
    'A missing kernel leaves a layer equivariant and trainable, so no test notices that the layer is not the most general equivariant map it promises to be.',
    ['e2cnn/nn/modules/r2_conv/*.py', 'e2cnn/kernels/*.py', 'e2cnn/diffops/*.py'],
    [('arguments', 'compute_basis_params in r2convolution.py, r2_transposed_convolution.py and r2diffop.py'), ('cutoffs', 'bandlimiting_filter, order_filter'), ('selection', 'SingleBlockBasisExpansion.__init__, BlocksBasisExpansion.__init__')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
