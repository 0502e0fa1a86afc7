"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
B = 'src/hookeai/'
M = B + 'simulators/fetorch/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=observe, hook_needed=None)))

p('C01', 'Matricial tensor storage is lossless and metric preserving',
  'Storing any symmetric second- or fourth-order tensor (with the matching minor symmetries), or any non-symmetric one, in matricial form and reading it back returns the same tensor, in 2D and 3D, with and without Kelvin weighting. With Kelvin weighting the matricial product of stored tensors equals the tensor double contraction, so norms and energies are preserved. Expanding a plane state to 3D inserts exactly the given out-of-plane value (zeros elsewhere), reducing it back returns the original, and the vectorised and loop conversions agree.',
  ['inputs', 'configurations'], 'all tensor values, tensor orders, dimensions, component orders and notation flags',
  'existing tests cover only Voigt conversions on sampled numbers; the identities must hold for every tensor value, and a wrong weight on one component survives any test that does not look at it',
  [M + 'math/matrixops.py'], [('get_tensor_mf / vget_tensor_mf', M + 'math/matrixops.py'), ('get_tensor_from_mf / vget_tensor_from_mf', M + 'math/matrixops.py'), ('2D/3D state conversions', M + 'math/matrixops.py')],
  ['return values'])
p('C02', 'Voigt stress and strain storage is work conjugate',
  'Reading a strain from its Voigt form (engineering shear) and storing a stress in its Voigt form preserve the work: the dot product of the Voigt vectors equals the tensor double contraction for every symmetric stress and strain. The vectorised and loop conversions return the same values, and the volumetric and deviatoric Voigt projections are complementary idempotent operators that give the mean normal part and a traceless remainder.',
  ['inputs', 'configurations'], 'all symmetric tensors and Voigt vectors, 2D and 3D, all component orders',
  'the tests compare a few sampled vectors; conjugacy is a universally quantified identity',
  [M + 'math/voigt_notation.py'], [('conversions', M + 'math/voigt_notation.py'), ('projections', M + 'math/voigt_notation.py')], ['return values'])
p('C03', 'Tensor operators obey their index definitions',
  'Every dyadic, single and double contraction operator equals its documented index expression for all tensors. The identity operators act as identity, transposition, symmetrisation, trace extraction and deviatoric projection on every second-order tensor, and the derivative of the inverse of a symmetric tensor is the true derivative.',
  ['inputs'], 'all first-, second- and fourth-order tensor values',
  'no test exercises these operators; index permutations coincide on symmetric samples',
  [M + 'math/tensorops.py'], [('dyad/dot/ddot operators', M + 'math/tensorops.py'), ('get_id_operators', M + 'math/tensorops.py'), ('fo_dinv_sym', M + 'math/tensorops.py')], ['return values'])
p('C04', 'Finite element bases interpolate exactly and differentiate exactly',
  'For every available element type, each shape function is one at its own node and zero at the others, the shape functions sum to one and reproduce every linear field at every local coordinate. The local derivatives are the exact derivatives of the shape functions at every local coordinate.',
  ['inputs', 'configurations'], 'all local coordinates, all element types',
  'the tests sample a point and only check that derivative entries add up to zero, so swapped or mis-signed derivative entries pass',
  [M + 'element/type/'], [('eval_shapefun', M + 'element/type/*.py'), ('eval_shapefun_local_deriv', M + 'element/type/*.py')], ['return values'])
p('C05', 'Gauss quadratures integrate the reference element exactly',
  'For every integration rule an element type admits, the points lie in the reference element, the weights are positive and sum to the reference volume, and every polynomial up to the rule\'s design degree is integrated exactly. The keyed and batched forms of the rule list the same points and weights in the same order.',
  ['configurations', 'inputs'], 'all domains and admissible numbers of points, all polynomials up to the design degree',
  'no test checks a quadrature; a misplaced point or weight only shows on a polynomial that excites it',
  [M + 'element/type/quadratures.py', M + 'element/type/interface.py'], [('gauss_quadrature', M + 'element/type/quadratures.py')], ['return values'])
p('C06', 'Discrete gradients are exact for linear displacement fields',
  'At every local coordinate of every non-degenerate element, the global derivatives satisfy the chain rule with the Jacobian of the geometry, so any linear displacement field gives exactly its (symmetric) gradient in the declared component order and a rigid body motion gives zero strain. The vectorised and loop operators agree, and expanding the plane operator to 3D and reducing it back is the identity, with zero out-of-plane rows. The volumetric and deviatoric operators are the mean of the three normal strains and the remainder, so they add up to the operator in plane and three-dimensional problems alike, and the averaged volumetric operator is the volume average over the integration points.',
  ['inputs', 'configurations'], 'all nodal coordinates with non-zero Jacobian, all local coordinates, all displacement fields, all element types',
  'tests check one element geometry; the identity must hold for every geometry and field',
  [M + 'element/derivatives/', B + 'material_model_finder/model/material_discovery.py'], [('eval_jacobian', M + 'element/derivatives/jacobian.py'), ('gradient operators', M + 'element/derivatives/gradients.py'), ('vcompute_local_vol_sym_gradient, vcompute_local_dev_sym_gradient, vcompute_element_vol_grad_hist', B + 'material_model_finder/model/material_discovery.py')], ['return values'])
p('C07', 'Element internal forces are the virtual-work integral of the stress',
  'For every element, material response and displacement, the internal force vector does the same virtual work on every nodal displacement as the stress does on the corresponding strain, summed over all integration points with weight and Jacobian. In consequence the nodal forces add up to zero for any stress state, each integration point is updated from its own previous state with its own strain increment, and the previous state is left unchanged.',
  ['inputs', 'configurations', 'histories'], 'all nodal coordinates, displacement increments, old states and material responses; all element types and integration rules',
  'no test computes internal forces; agreement must hold for every stress response',
  [M + 'element/integrations/internal_forces.py', M + 'material/material_su.py'], [('compute_element_internal_forces', M + 'element/integrations/internal_forces.py')], ['returned forces and state'])
p('C08', 'Mesh assembly and extraction are adjoint, configurations are independent',
  'Assembling element arrays adds every element degree of freedom into the mesh degree of freedom of its connectivity and touches no other, for any mesh and any subset of elements; extraction returns exactly the entries of the element\'s nodes, and the precomputed mesh indexing is the same map. Updating the last or current configuration changes only that configuration (coordinates only on request, always as initial plus displacement), and what callers receive never aliases the stored mesh.',
  ['inputs', 'histories', 'configurations'], 'all connectivities, nodal values, element subsets and sequences of updates',
  'tests use one small mesh; the map must be right for every connectivity and after every update history',
  [M + 'structure/structure_mesh.py'], [('element_assembler / element_extractor', M + 'structure/structure_mesh.py'), ('configuration updates', M + 'structure/structure_mesh.py')], ['returned arrays'])
p('C09', 'Material state bookkeeping separates converged and current states',
  'Each element reads back exactly the state last written for it and that time level, updating one element or one time level leaves all others unchanged, and convergence makes the current states the converged ones. States handed out or taken in as copies never share storage with the stored ones, and each element is bound to the model it was assigned.',
  ['histories', 'inputs'], 'all sequences of initialisation, updates, convergence and reads over any elements',
  'no test covers it; aliasing only shows on particular operation sequences',
  [M + 'structure/structure_state.py'], [('StructureMaterialState', M + 'structure/structure_state.py')], ['returned states'])
p('C10', 'Elastic response is the linear law of the declared constants',
  'For every admissible set of isotropic constants and every strain history the elastic model returns total strain equal to the sum of increments and stress equal to the elasticity tensor applied to it, whatever the path, with plane strain equal to the 3D response with zero out-of-plane strain. Technical constants and elastic moduli convert into each other consistently, and for every supported material symmetry the elasticity matrix carries each independent modulus exactly in the entries required by that symmetry.',
  ['inputs', 'histories', 'configurations'], 'all elastic constants, symmetry classes, strain increments and previous states; both problem types',
  'no material test exists; the law must hold for all constants and histories',
  [M + 'material/models/standard/elastic.py'], [('Elastic.state_update', M + 'material/models/standard/elastic.py'), ('elastic_tangent_modulus', M + 'material/models/standard/elastic.py')], ['state variables', 'tangent'])
p('C11', 'Von Mises return mapping satisfies the constitutive equations',
  'For every strain increment, previous state and isotropic hardening law, a successful von Mises update (scalar and vectorised implementations, plane strain and 3D) accumulates total strain exactly, keeps stress equal to the elastic law of the elastic strain, has purely deviatoric plastic flow along the trial stress deviator, never decreases the accumulated plastic strain and ends on or inside the yield surface within the convergence tolerance. A step that does not exceed yield is exactly elastic; a failed update is flagged and never returned as a valid state; the previous state is not modified.',
  ['inputs', 'histories'], 'all strain increments, admissible states, elastic constants and monotone hardening laws; any number of Newton iterations',
  'no test covers it; the equations must hold on every branch of the return mapping and for any iteration count',
  [M + 'material/models/standard/von_mises.py', M + 'material/models/vmap/von_mises.py'], [('state_update', M + 'material/models/standard/von_mises.py'), ('state_update', M + 'material/models/vmap/von_mises.py')], ['state variables'])
p('C12', 'Mixed-hardening von Mises return mapping satisfies its equations',
  'For every strain increment, previous state and pair of isotropic and kinematic hardening laws, a successful mixed-hardening update (scalar and vectorised, plane strain and 3D) accumulates total strain exactly, keeps stress equal to the elastic law of the elastic strain, moves plastic strain and back stress along the relative-stress deviator direction, never decreases the accumulated plastic strain and ends with the relative stress inside the yield surface (elastic step) or on it within the convergence tolerance (plastic step). With a constant kinematic law the result coincides with the isotropic model; an elastic step leaves back stress and plastic strain unchanged; a failed update is flagged; the previous state is not modified.',
  ['inputs', 'histories'], 'all strain increments, admissible states, constants and hardening laws; any number of Newton iterations',
  'no test covers it',
  [M + 'material/models/standard/von_mises_mixed.py', M + 'material/models/vmap/von_mises_mixed.py'], [('state_update', M + 'material/models/standard/von_mises_mixed.py'), ('state_update', M + 'material/models/vmap/von_mises_mixed.py')], ['state variables'])
p('C13', 'Drucker-Prager return mapping satisfies its equations',
  'For every strain increment, previous state, cone parameters and hardening law, a successful Drucker-Prager update (scalar and vectorised, plane strain and 3D) accumulates total strain exactly, keeps stress equal to the elastic law of the elastic strain, and ends on or inside the cone within tolerance, whether it returns to the smooth cone or to the apex, where the deviatoric stress vanishes. A return to the smooth cone never reverses the stress deviator, the accumulated plastic strain never decreases, an elastic step is exactly elastic, a failed update is flagged, and the previous state is not modified.',
  ['inputs', 'histories'], 'all strain increments, admissible states, constants, cone parameters and hardening laws; any number of Newton iterations',
  'no test covers it; the apex/cone switch is reached only for particular pressures',
  [M + 'material/models/standard/drucker_prager.py', M + 'material/models/vmap/drucker_prager.py'], [('state_update', M + 'material/models/standard/drucker_prager.py'), ('state_update', M + 'material/models/vmap/drucker_prager.py')], ['state variables'])
p('C14', 'Consistent tangents are the derivative of the stress update',
  'On every converged branch, elastic, plastic, cone or apex, the consistent tangent returned by the elastic, von Mises, mixed-hardening and Drucker-Prager models (scalar and vectorised) equals the derivative of the updated stress with respect to the strain increment, along the solution of the return-mapping equation. In plane strain it is the in-plane part of the 3D tangent.',
  ['inputs', 'histories'], 'all strain increments, states, constants and hardening laws on all branches',
  'no test covers it; a wrong tangent still converges on benign samples',
  [M + 'material/models/standard/', M + 'material/models/vmap/'], [('state_update', M + 'material/models/standard/drucker_prager.py'), ('state_update', M + 'material/models/standard/von_mises.py')], ['returned tangent'])
p('C15', 'Lou yield function and its derivatives are consistent',
  'For every stress at which its yield function is differentiable, the invariants used by the Lou-Zhang-Yoon model are those of the stress and its deviator, its effective stress is the documented function of them, and the derivatives used by the return mapping are true derivatives. A successful update accumulates total strain exactly, keeps stress equal to the elastic law of the elastic strain and satisfies the yield condition within tolerance; an elastic step is exactly elastic and a failed update is flagged.',
  ['inputs', 'histories'], 'all stresses with non-singular deviator, all yield parameters and hardening laws; any number of Newton iterations',
  'no test covers it; sampled finite differences hide wrong terms that vanish on the sample',
  [M + 'material/models/standard/lou.py', M + 'material/models/vmap/lou.py'], [('get_residual_and_jacobian', M + 'material/models/standard/lou.py'), ('state_update', M + 'material/models/standard/lou.py')], ['residual, jacobian, state variables'])
p('C16', 'Hardening laws return their documented curve and its slope',
  'For every hardening type and admissible parameters, the law returns the documented yield stress at every non-negative accumulated plastic strain, and the slope it returns is the derivative of that curve (at a corner point of the piecewise law, the slope of one of the adjacent segments). The piecewise law interpolates its points linearly, is continuous, and stays constant after the last point.',
  ['inputs', 'configurations'], 'all parameters and all accumulated plastic strains',
  'no test covers it',
  [M + 'material/models/standard/hardening.py'], [('get_hardening_law', M + 'material/models/standard/hardening.py')], ['return values'])
p('C17', 'Data normalisation is exactly invertible per feature',
  'For every data set and scaling parameters, normalising then denormalising (and the reverse) returns the original values, feature by feature, for batched and unbatched sequences, and never modifies the caller\'s tensor. Standardisation maps the fitted mean to zero and one standard deviation to one, min-max maps the fitted minimum and maximum to the ends of the target range, and a degenerate feature never yields a division by zero.',
  ['inputs', 'configurations'], 'all tensors, shapes and scaling parameters',
  'no test covers it; round trips must hold for all values and shapes',
  [B + 'utilities/data_scalers.py', B + 'model_architectures/procedures/model_data_scaling.py'], [('TorchStandardScaler', B + 'utilities/data_scalers.py'), ('TorchMinMaxScaler', B + 'utilities/data_scalers.py'), ('data_scaler_transform', B + 'model_architectures/procedures/model_data_scaling.py')], ['returned tensors'])
p('C18', 'Force equilibrium loss measures the out-of-balance nodal forces',
  'For all force histories, boundary labels and time weights the specimen loss is the time-weighted sum of squared nodal imbalances: free degrees of freedom are compared with the external force, constrained ones also with the measured reaction, individually or summed per boundary set according to the chosen type, and each scaled by the force range of its direction when force normalisation is on. It is zero exactly when every compared imbalance vanishes, the vectorised assembly, pointwise loss and local response paths agree with the element-by-element and node-by-node ones, and the reported loss components and set reactions add up to the same quantities.',
  ['inputs', 'configurations'], 'all nodal force values, boundary label assignments, connectivities and weights',
  'no test covers the loss; the discovery result is only as right as this functional',
  [B + 'material_model_finder/model/material_discovery.py', B + 'material_model_finder/data/specimen_data.py'], [('force_equilibrium_loss / vforce_equilibrium_loss', B + 'material_model_finder/model/material_discovery.py'), ('vbuild_internal_forces_mesh_hist', B + 'material_model_finder/model/material_discovery.py')], ['loss value', 'reaction history'])
p('C19', 'Learnable material parameters respect bounds and reach the material',
  'Normalising and denormalising a learnable parameter are inverse maps between its bounds and the normalised range, enforcing bounds leaves every parameter inside them and untouched if already inside, and the reported parameters are the physical values of the stored ones. Each learnable parameter value used in a prediction is exactly the current one, applied to the material property of that name and to no other. Yield parameters of the Lou model with a convex deviatoric section are kept by the constraint and others are moved along their ray to the boundary of the convex domain. The material model finder reports, bounds and constrains the parameters of every material model and hybridised submodel, each under its own label.',
  ['inputs', 'histories', 'configurations'], 'all parameter values, bounds and material models',
  'no test covers it',
  [B + 'model_architectures/rc_base_model/model/recurrent_model.py', B + 'material_model_finder/model/material_discovery.py', M + 'material/models/standard/lou.py'], [('transform_parameter, enforce_parameters_bounds, sync_material_model_parameters', B + 'model_architectures/rc_base_model/model/recurrent_model.py'), ('MaterialModelFinder.enforce_parameters_bounds', B + 'material_model_finder/model/material_discovery.py')], ['parameters', 'material parameters'])
p('C20', 'Recurrent material prediction chains the state update over the path',
  'For every strain path the predicted response starts at zero and at each later time is the stress (and requested state variables, in the declared component order) obtained by updating the previous converged state with the strain increment of that step. Paths of a batch do not influence each other, unbatched input gives the same response as a batch of one, and a failed update is reported as an error instead of returned (vectorised materials mark it with undefined values instead).',
  ['inputs', 'histories'], 'all strain paths, path lengths, batch sizes and material responses',
  'no test covers it',
  [B + 'model_architectures/rc_base_model/model/recurrent_model.py'], [('_recurrent_constitutive_model / _vrecurrent_constitutive_model', B + 'model_architectures/rc_base_model/model/recurrent_model.py')], ['predicted response'])
p('C21', 'Recurrent network cell implements the gated recurrent unit exactly',
  'For all weights, inputs and hidden states the custom gated recurrent unit computes the standard reset, update and candidate equations, layer by layer and step by step, for batched and unbatched input, with a missing initial state meaning zero. Its output sequence is the top layer state at every time and its final state is the last state of every layer.',
  ['inputs', 'histories', 'configurations'], 'all weights, inputs, hidden states, sequence lengths and layer counts',
  'the comparison with the library implementation is a script on one random seed needing a GPU',
  [B + 'model_architectures/rnn_base_model/custom/gru_vmap.py'], [('GRUCell, GRU', B + 'model_architectures/rnn_base_model/custom/gru_vmap.py')], ['outputs'])
p('C22', 'Hybrid models compose their submodels in the declared order',
  'For every set of submodels with distinct positions, each channel applies its submodels in increasing position order, feeding each one the previous output (normalised and denormalised as that submodel requires, with the channel input appended when requested), and the channels are combined by the declared rule. The batched elastic and volumetric-deviatoric layers compute the elastic law and the recomposition for every sample, and no caller tensor is modified.',
  ['inputs', 'configurations'], 'all submodel sets, positions, features and responses',
  'no test covers it',
  [B + 'model_architectures/hybrid_base_model/model/'], [('HybridModel', B + 'model_architectures/hybrid_base_model/model/hybrid_model.py'), ('hybridized layers', B + 'model_architectures/hybrid_base_model/model/hybridized_layers.py')], ['outputs'])
p('C23', 'Time series dataset operations preserve samples and features',
  'Adding, removing, renaming, summing, concatenating or initialising features and adding samples affect exactly the named features of every sample, leave all other features and the number of samples as they were, and combine values as requested. Splitting a dataset partitions its samples into disjoint subsets of the requested sizes that together contain every sample once, and batching stacks the features of the chosen samples in order.',
  ['inputs', 'histories', 'configurations'], 'all datasets, feature sets and operation sequences',
  'no test covers it',
  [B + 'time_series_data/time_dataset.py'], [('TimeSeriesDataset operations', B + 'time_series_data/time_dataset.py')], ['dataset content'])
p('C24', 'Generated strain paths and noise respect their declared limits',
  'For every random draw and configuration whose strain bounds enclose zero, a generated strain path has the requested number of steps, starts from zero strain where its type or the request says so, stays within the component bounds it was asked to respect (before any requested noise), and is closed when a cyclic path is requested. Added noise respects its declared parameters and is reproducible from its seed. Component arrays map to symmetric tensors and back without loss.',
  ['inputs', 'configurations'], 'all random draws, bounds, lengths and options',
  'no test covers it; bound violations depend on the random draw',
  [B + 'data_generation/strain_paths/'], [('generate_strain_path', B + 'data_generation/strain_paths/*.py')], ['returned paths'])
p('C25', 'Error measures and denoisers are the documented functionals',
  'For all predictions and targets the error measures equal their definitions, are non-negative and vanish exactly for perfect predictions (away from the zero-target convention of the relative error). Gradients of the training losses are those of the functional and never undefined for zero targets. The denoisers keep the shape and type, treat every feature and sequence independently, and return constant signals unchanged.',
  ['inputs'], 'all prediction, target and signal values',
  'no test covers it',
  [B + 'utilities/loss_functions.py', B + 'utilities/output_prediction_metrics.py', B + 'utilities/data_denoisers.py'], [('metrics', B + 'utilities/')], ['return values'])
p('C26', 'Precision conversion changes the type and nothing else',
  'Converting parameter and state collections to another floating precision or to tensors converts every floating entry at every nesting depth, keeps every other entry, every key and every value, and leaves the original collection unmodified unless an in-place conversion was requested. After every material update that returns, whether it succeeded or reported a convergence failure, the global default precision is what it was before.',
  ['inputs', 'histories', 'configurations'], 'all nested collections and all update outcomes',
  'no test covers it',
  [B + 'utilities/type_conversion.py', M + 'material/models/'], [('convert_* functions', B + 'utilities/type_conversion.py')], ['returned collections', 'default dtype'])
p('C27', 'State files: what was saved is what is loaded, nothing else goes',
  'For every model name, set of epochs and order of operations: a saved model or optimizer state is stored under its documented name (initial, default, epoch, best) and loading that state gives back exactly the saved parameters; loading "last" takes the state of the largest epoch and "best" the single best state. Saving or loading removes only what is documented (the previous best state, and states of later epochs when requested), never the files of another model, and a load that fails removes nothing. Loss, learning rate and parameter histories written to file are read back unchanged.',
  ['inputs', 'histories', 'configurations'], 'all epochs, parameter values, model names and directory contents',
  'no test covers it; the failures depend on the other files of the directory',
  [B + 'model_architectures/procedures/model_state_files.py', B + 'model_architectures/procedures/model_training.py'],
  [('save_model_state / load_model_state', B + 'model_architectures/procedures/model_state_files.py'), ('save_training_state, histories', B + 'model_architectures/procedures/model_training.py')], ['files', 'loaded states'])
p('C28', 'Prediction evaluates, stores and scores every sample exactly once',
  'For every data set, batch size and normalization: prediction runs the model in evaluation mode on every sample once, with inputs normalized and outputs denormalized exactly when the model is normalized, and stores for each sample, under its index in the data set, its own output, its own target and its own loss (computed on normalized data exactly when requested). The returned average is the mean over samples. A prediction set never overwrites an earlier one, a requested seed changes no result, and a model given by directory is loaded in the requested state without removing any file.',
  ['inputs', 'configurations', 'histories'], 'all sample data, model functions, scalers, batch sizes and options',
  'no test covers it',
  [B + 'model_architectures/rc_base_model/predict/prediction.py', B + 'model_architectures/rnn_base_model/predict/prediction.py', B + 'model_architectures/hybrid_base_model/predict/prediction.py', B + 'model_architectures/procedures/model_prediction.py'],
  [('predict (three model families)', B + 'model_architectures/*/predict/prediction.py'), ('prediction procedures', B + 'model_architectures/procedures/model_prediction.py')], ['prediction files', 'returned loss'])
p('C29', 'Training makes the documented steps and keeps the states it reports',
  'For every sequence of losses, parameter updates and validation losses: each batch of each epoch is one optimizer step with the gradient of that batch alone, on features and targets normalized exactly as configured, with parameter bounds and constraints enforced before the next use. Stored initial, periodic, best and last states are the states the model had then, histories are the averages over each epoch, and the returned minimum loss and epoch are those of the history. Training ends at the epoch limit, when the parameters have converged, or when validation stopped improving, in which case the state with the lowest validation loss is the trained model and best state. Cross-validation trains and validates every fold on its own samples.',
  ['inputs', 'histories', 'configurations'], 'all loss, parameter and validation loss sequences; options of the three model families and the material model finder',
  'no test covers it; stopping and best state depend on the history of the losses',
  [B + 'model_architectures/rc_base_model/train/training.py', B + 'model_architectures/rnn_base_model/train/', B + 'model_architectures/hybrid_base_model/train/training.py', B + 'material_model_finder/train/training.py'],
  [('train_model (four), EarlyStopper', B + 'model_architectures/*/train/training.py'), ('kfold_cross_validation', B + 'model_architectures/rnn_base_model/train/cross_validation.py')], ['files', 'returned model and loss'])
p('C30', 'A model directory gives the model back',
  'For every choice of options of the three model families, a model initialised from the initialisation file in its directory is constructed with exactly the options of the model that wrote it (changes made through the model included), with the same parameters, bounds, normalisation and data scalers, and with the requested state loaded; its outputs are then those of the saved model. Fitted data scalers are those of the given data set, are stored with the model and read back unchanged, and hybridised submodels are set up from their own directory or data exactly as declared.',
  ['inputs', 'configurations', 'histories'], 'all parameter values, bounds, scaler statistics and inputs; every constructor option away from its default',
  'no test saves and reloads a model; a lost option shows only for the configuration that uses it',
  [B + 'model_architectures/rnn_base_model/model/gru_model.py', B + 'model_architectures/rc_base_model/model/recurrent_model.py', B + 'model_architectures/hybrid_base_model/model/', B + 'model_architectures/procedures/model_data_scaling.py', B + 'utilities/fit_data_scalers.py'],
  [('save_model_init_file / init_model_from_file', B + 'model_architectures/*/model/*.py'), ('data scalers of a model', B + 'model_architectures/procedures/model_data_scaling.py'), ('set_hybridized_model', B + 'model_architectures/hybrid_base_model/model/hybridized_model.py')], ['files', 'reconstructed model', 'model outputs'])
p('C31', 'An imported specimen is the mesh and history of its files',
  'For every supported mesh input file (keyword case and order, comments, blank lines, nodes and elements listed in any order, several element blocks) the imported reference coordinates are those written for each node label, the connectivities and element types are those of the file, and the prescribed degrees of freedom are exactly those of the boundary section. The history consists of exactly the time step files of the specimen in the order of their time steps, and the displacements, reaction forces and times of every step are those of its file in node order; the generated specimen data set holds exactly these.',
  ['inputs', 'configurations'], 'all coordinates, nodal histories and time step numbers; enumerated mesh files and directory contents',
  'no test reads an input file; a different order of nodes or files needs a particular file to show',
  [B + 'user_scripts/global_model_update/material_finder/gen_specimen_data.py'],
  [('get_specimen_mesh_from_inp_file', B + 'user_scripts/global_model_update/material_finder/gen_specimen_data.py'), ('get_specimen_history_paths', B + 'user_scripts/global_model_update/material_finder/gen_specimen_data.py'), ('get_specimen_numerical_data', B + 'user_scripts/global_model_update/material_finder/gen_specimen_data.py')], ['returned mesh and histories', 'specimen data set'])
p('C32', 'Synthetic data sets are the material response to their strain paths',
  'For every strain path, component order and requested state variables, each sample of a generated response data set holds the strain path, and stress and state variables that are those of the material model updated step by step along that very path from the initial state (component order and shear included), with the failed paths and only those discarded; reading response files or a strain data set gives one sample per valid path in order. Each sample of a noisy data set is the source strain path plus exactly the generated noise (homoscedastic, or weighted with the strain norm of that path; never at the first time point; denoised on request) with the stress and state response to that noisy path; the stored noise is the difference to the source sample, and the source data set is left unchanged.',
  ['inputs', 'histories', 'configurations'], 'all strain paths, material responses, noise and times; enumerated numbers of paths, orders and failing trials',
  'no test generates a response data set; mixed-up components or stale states show only for particular orders or failures',
  [B + 'user_scripts/synthetic_data/gen_response_dataset.py', B + 'user_scripts/synthetic_data/gen_noisy_response_dataset.py'],
  [('MaterialResponseDatasetGenerator', B + 'user_scripts/synthetic_data/gen_response_dataset.py'), ('NoisyMaterialResponseDatasetGenerator', B + 'user_scripts/synthetic_data/gen_noisy_response_dataset.py')], ['data set samples', 'files'])
p('C33', 'A random material patch is the requested mesh with the requested motion',
  'For every patch size, mesh, element type, displacement ranges, deformation orders and random draws: the mesh has its nodes exactly where the element type has them, numbered from 1 and equally spaced; every corner moves within the range prescribed for its label, and fixed or unspecified corners stay; deformed edges join the deformed corners along a curve of the requested order and amplitude (positive is outward), noise spares the corners. Displacements are prescribed on exactly the boundary nodes and are deformed minus reference position, face nodes are interpolated between opposite edges (so an affine or rigid boundary motion is reproduced), the requested rigid motion acts on all of them and none is added otherwise, and only a geometrically admissible patch is returned.',
  ['inputs', 'configurations'], 'all patch sizes, ranges, draws, corner and edge positions; enumerated meshes and element types',
  'no test generates a patch; the defects need a fixed corner, a face node or a default option',
  [B + 'data_generation/spdg/patch_generator.py', B + 'data_generation/spdg/patch.py', B + 'simulators/links/discretization/finite_element.py'],
  [('generate_deformed_patch', B + 'data_generation/spdg/patch_generator.py'), ('FiniteElementPatch', B + 'data_generation/spdg/patch.py')], ['returned patch', 'prescribed displacements'])
p('C34', 'Links files hold the specimen, and its results are read back as written',
  'For every mesh, material, prescribed displacement and set of removed elements, the Links input file describes exactly that specimen: every node with its coordinates, every element with its nodes in the order of the element type and its material phase, the documented material parameters (shear factors included), and on exactly the constrained degrees of freedom the prescribed values (a free degree of freedom stays free). Results read back are those of the files of that simulation, in time order and node order, column by column; converting between Links, ABAQUS and csv files keeps coordinates, connectivities, boundary conditions and histories, and removed or updated boundary conditions touch only what was requested.',
  ['inputs', 'configurations', 'files'], 'all coordinates, displacements, material parameters and results; enumerated meshes, element types, phases and file layouts',
  'no test writes or reads a Links file; the defects need negative values, free degrees of freedom or unusual names',
  [B + 'simulators/links/links.py', B + 'simulators/links/utilities/', B + 'simulators/links/models/'],
  [('LinksSimulator', B + 'simulators/links/links.py'), ('file conversions', B + 'simulators/links/utilities/')], ['written files', 'returned results'])

p('C35', 'Data set pruning removes the least informative samples and loses none',
  'At every pruning iteration the development and the unused samples together are exactly the samples of the full data set, each once. A pruning step trains a model on the training and validation parts of the development data set, tests it on the testing part (the three stored in files of their own), and moves to the unused data set exactly the scheduled number of testing samples with the lowest losses, each loss attributed to the sample it was computed for; when a documented limit is reached (development size or ratio, testing size, pruned fraction) nothing is pruned and the loop ends. Every iteration model is trained on that iteration development data set only and tested on the requested testing sets; the returned record, the stored file and the summary report the sizes and losses of each iteration.',
  ['inputs', 'configurations', 'histories'], 'all sample contents and losses; enumerated sizes, schedulers, limits, testing types and splits',
  'no test prunes a data set; the defects need equal subset sizes, small testing parts or more than ten samples',
  [B + 'miscellaneous/pruning/pruning_dataset.py'],
  [('prune_time_series_dataset', B + 'miscellaneous/pruning/pruning_dataset.py'), ('perform_pruning_step', B + 'miscellaneous/pruning/pruning_dataset.py')], ['stored data sets', 'returned record', 'summary'])

p('C36', 'Specimen histories are changed only where asked; patches keep their paths',
  'Noise is added to the displacements of every node at every time step but the first, and to nothing else; denoising filters the whole displacement history of every node in time order, starts undeformed, and changes nothing else; copied boundary labels are those of the same time step and node. The reaction history of a boundary set is the sum of the reactions of exactly the nodes with that label in that direction, at every time step. The local path data set of material patches holds the local paths of every patch in the order of the patches, each computed from the mesh, material and complete history of its own simulation, and the indices of an element select the paths of that element.',
  ['inputs', 'configurations', 'files'], 'all coordinates, displacements, reactions, noise and labels; enumerated numbers of nodes, time steps, patches and elements',
  'no test runs these scripts; the defects need histories longer than ten steps, unordered directories or several patches',
  [B + 'miscellaneous/noisy_data/', B + 'user_scripts/global_model_update/utilities/process_specimen_data.py', B + 'user_scripts/synthetic_data/build_local_paths_dataset.py'],
  [('inject_displacements_noise', B + 'miscellaneous/noisy_data/inject_disp_noise_csv.py'), ('build_local_paths_dataset', B + 'user_scripts/synthetic_data/build_local_paths_dataset.py')], ['written files', 'returned data sets'])

p('C37', 'Models are trained, tested and reported on their own data sets and files',
  'A training run trains a new model in the given directory on exactly the samples of the training file (strain path in, stress path out, in order), validates it on exactly those of the validation file and refuses to start without one where early stopping needs it; hybridised submodels are scaled with the features they receive and give on the training data set. A prediction run tests the best state of the model of the given directory on the samples of the given file, reports the metrics and comparison data of these predictions, and removes sample predictions only on request and nothing else. Comparison data pair every prediction with the truth (and time) of the same sample, component and time step. Every model of an ensemble keeps its own trained state and the predictions made with it, and the reported losses, parameters and realisations are those of each model in order; convergence data pair every training data set size with the predictions of the model trained on it.',
  ['inputs', 'configurations', 'histories', 'files'], 'all sample contents, predictions, losses and parameters; enumerated numbers of samples, models and stored files',
  'no test runs these workflows; the defects need unordered directories, small data sets, several models or a particular model family',
  [B + 'user_scripts/local_model_update/', B + 'model_architectures/materials/process_predictions.py', B + 'model_architectures/procedures/convergence_plots.py'],
  [('perform_model_standard_training, perform_model_prediction', B + 'user_scripts/local_model_update/*/'), ('perform_model_uq, gen_model_uq_plots', B + 'user_scripts/local_model_update/*/uncertainty_quantification.py'), ('build_prediction_data_arrays, build_time_series_predictions_data', B + 'model_architectures/materials/process_predictions.py')], ['arguments of training and prediction', 'stored models and predictions', 'comparison data'])

p('C38', 'The local model updating pipeline keeps data, materials and points together',
  'Every pair of the given temperatures and compositions gets its own data sets of the requested types and sizes, with the requested share of random (otherwise proportional) strain paths, by default all random. Every sample is the first successful response, among a bounded number of trials, of a material whose parameters are the fitted laws at exactly the temperature and composition stored in the sample: those of the point for training, any between the neighbouring points for validation and in-distribution testing; conditions outside the fitted range, unknown materials and materials that never respond are refused. An assembled data set has every sample of its type exactly once (or the requested share of every point) and no other, and never replaces another. Updating trains, validates and tests the ensemble on the assembled data sets of these types, keeps models already trained unless new ones are trained, and removes only its working directories. An evaluated model receives strain, temperature and composition in its own units from a fresh memory and answers in the units of the data; a uniaxial path has the requested axial strain, no lateral stress, and the stress of the model along it.',
  ['inputs', 'configurations', 'histories', 'files'], 'all strain paths, responses, draws, temperatures and compositions in the range; enumerated grids, sizes and failing trials',
  'no test runs the pipeline; the defects need failing trials, interior points of the grid, several types or earlier results on disk',
  [B + 'user_scripts/complete_pipelines/'],
  [('generate_material_data, assemble_material_datasets, perform_material_model_updating, get_model_parameters', B + 'user_scripts/complete_pipelines/local_model_update.py'), ('forward_material_model, get_uniaxial_stress_path', B + 'user_scripts/complete_pipelines/evaluate_gru_model.py')], ['stored data sets', 'material parameters', 'arguments of the ensemble', 'stress paths'])

def write():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
if __name__ == '__main__':
    write()
