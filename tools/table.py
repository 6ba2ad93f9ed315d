ENGINE = 'abstract interpretation of the Python sources over a domain of tensor-network terms'
TESTS = 'The tests run a few small fixed lattices with random tensors and check shapes, energies or round numbers; '

prop('C01', 'The lattice is a torus: neighbours, sites, bonds and legs agree',
     'On a periodic nx by ny unit cell every operation uses the same neighbour for each direction; the bond list contains every nearest-neighbour bond exactly once, '
     'the site list every site exactly once, and the two sites and the two tensor legs reported for a bond are those that face each other across it.',
     ['configurations', 'inputs'], 'every unit cell size (including one site wide cells), site, direction and bond',
     TESTS + 'wrong wrap-around only shows for particular non-square or one-site-wide cells.',
     ['acetn/ipeps/tensor_network.py', 'acetn/ipeps/bond.py'],
     [('TensorNetwork.build_bond_list, build_site_list, bond_permute', 'acetn/ipeps/tensor_network.py'), ('Bond', 'acetn/ipeps/bond.py')],
     ENGINE, 'Decides the site list, bond list and bond permutation tables for all cells from 1x1 to 4x4 and a sample of larger ones by evaluating the '
     'construction code abstractly and comparing with the torus; concrete cell sizes, not all sizes.')

prop('C03', 'Networks, copies and site tensors never share state',
     'Nothing done to one network (construction, initialisation, assignment, evolution, loading, changing parameters) changes the tensors, lists or settings of another network or of a copy; '
     'a copy made by any of the copying operations holds equal values in separate memory. A tensor assigned to a site is owned by that site from then on, '
     'and imaginary time gates of one step size are unaffected by making gates of another.',
     ['histories', 'programs'], 'every pair of networks, every public operation, in any order',
     TESTS + 'no test holds two live networks, and aliasing shows only when a second object is changed later.',
     ['acetn/ipeps/tensor_network.py', 'acetn/ipeps/site_tensor.py', 'acetn/ipeps/ipeps.py', 'acetn/evolution/gate.py'],
     [('TensorNetwork.copy, to', 'acetn/ipeps/tensor_network.py'), ('SiteTensor.copy, copy_from, __setitem__', 'acetn/ipeps/site_tensor.py'), ('Gate', 'acetn/evolution/gate.py')],
     'ownership (alias) analysis of tensor storage and object state by ' + ENGINE,
     'For every public operation, on a network next to a second one: each value, list and setting of the second is unchanged in the analysed post-state and no storage is shared. '
     'Covers single operations and the listed compositions, not arbitrary programs.')

prop('C04', 'Saving and loading a network is lossless and has no side effects',
     'Loading a saved file gives a network every tensor of which (site, corner and edge tensors of every site) equals the one that was saved, at its own site, converted only to the dtype and device of the loading network. '
     'Saving changes nothing in the network that is saved, and loading changes nothing but the network that loads.',
     ['histories', 'inputs'], 'every network, file content and history of saves and loads',
     TESTS + 'the saved file is compared nowhere with what was saved.',
     ['acetn/ipeps/ipeps.py', 'acetn/ipeps/site_tensor.py', 'acetn/ipeps/tensor_network.py'],
     [('Ipeps.save, load', 'acetn/ipeps/ipeps.py')],
     'typestate and value-flow analysis by ' + ENGINE,
     'The file content is tracked as an abstract value from save to load; the file format library (torch.save) is trusted.')

prop('C05', 'Evolution starts from the state the user supplied',
     'A network constructed from another, loaded from a file, initialised with given site states or evolved before continues from exactly those tensors; only a network that has never had any state gets the model-defined initial product state, '
     'and that one gets, at every site, the initial state its model defines for that site.',
     ['histories'], 'every order of construction, initialisation, loading, setting the model and evolving',
     TESTS + 'a state that is silently re-initialised still passes every shape test, and a converging run still reaches the same energy.',
     ['acetn/ipeps/ipeps.py', 'acetn/ipeps/tensor_network.py', 'acetn/ipeps/site_tensor.py', 'acetn/model/model.py'],
     [('Ipeps.evolve, site_states_initialized', 'acetn/ipeps/ipeps.py'), ('TensorNetwork.initialize_site_tensors', 'acetn/ipeps/tensor_network.py')],
     'typestate analysis by ' + ENGINE, 'Every listed order of operations is analysed on the source; the analysed post-state tensors are compared with the state supplied.')

prop('C06', 'Tensors keep the configured dtype and device',
     'Every tensor a network holds has the dtype and device its configuration (or the latest conversion) asks for, after construction, initialisation, loading, renormalisation and evolution, and no operation mixes tensors of two devices or silently drops the imaginary part of a complex tensor.',
     ['configurations', 'histories'], 'float32, float64, complex64 and complex128, CPU and CUDA, every operation and algorithm option',
     TESTS + 'they run float64 and complex128 on the CPU; there is no GPU here, so device mixing cannot be run at all.',
     ['acetn/ipeps/site_tensor.py', 'acetn/ipeps/tensor_network.py', 'acetn/evolution/gate.py', 'acetn/evolution/lambda_tensors.py', 'acetn/model/model.py', 'acetn/measurement/measure.py'],
     [('SiteTensor.to', 'acetn/ipeps/site_tensor.py'), ('Gate', 'acetn/evolution/gate.py')],
     'type (dtype/device) inference over every tensor expression by ' + ENGINE, 'PyTorch promotion and device rules are modelled; the obligations are the dtype and device of each stored tensor and of each operand pair.')

prop('C07', 'A renormalisation step grows and shrinks each environment tensor correctly',
     'A move in direction k replaces the corner and edge tensors on that side by their contraction with the adjacent column (or row) of site tensors and the projectors of the adjacent cuts, for every site of that column and no other, '
     'and leaves site tensors and all other environment tensors as they were, up to normalisation.',
     ['inputs', 'configurations'], 'every environment, bond dimension, direction, site and cell size',
     TESTS + 'they check shapes and energies of small converged cases; with uniform bond dimensions a wrong leg passes shape tests.',
     ['acetn/renormalization/directional_mover.py'], [('DirectionalMover', 'acetn/renormalization/directional_mover.py')],
     'value-flow analysis: ' + ENGINE + ', compared with the contraction the CTM algorithm prescribes',
     'The code is reduced to normal-form tensor networks with symbolic dimensions; equality is exact in that domain. Cells of fixed sizes; floating-point rounding is outside.')

prop('C08', 'A CTMRG step moves in all four directions over the whole unit cell',
     'One renormalisation iteration absorbs every column and every row of the unit cell once in each direction, in an order in which each move uses the environment left by the previous one, and repeats for the configured number of steps.',
     ['configurations'], 'every cell size and step count', TESTS + 'a skipped column still converges to nearly the same energy on a uniform state.',
     ['acetn/renormalization/ctmrg.py', 'acetn/renormalization/directional_mover.py', 'acetn/ipeps/ipeps.py'],
     [('ctmrg', 'acetn/renormalization/ctmrg.py'), ('left_move, right_move, up_move, down_move', 'acetn/renormalization/directional_mover.py')],
     'call-order and value-flow analysis by ' + ENGINE, 'Decided on concrete cell sizes and step counts.')

prop('C09', 'CTMRG projectors are those of the cut they truncate',
     'For every projector option (half or full system) and decomposition (full or randomised), real or complex, the pair of projectors of a cut is built from the truncated singular value decomposition of the environment around that cut, '
     'keeps at most chi values and exactly those above the cutoff relative to the largest, and multiplying them resolves the identity on the kept space.',
     ['inputs', 'configurations'], 'every environment, cut, option, dtype and chi',
     TESTS + 'complex conjugation and orientation errors vanish on real symmetric states.',
     ['acetn/renormalization/projectors.py', 'acetn/linalg/svd_lowrank.py'], [('ProjectorCalculator', 'acetn/renormalization/projectors.py')],
     'value-flow analysis: ' + ENGINE, 'The randomised decompositions are taken by contract here (C19 decides their structure); accuracy of the truncation is numerical and not claimed.')

prop('C10', 'Initial environments are the contraction of the bare site tensors',
     'Initialising a network gives each site the requested product state with noise only where asked for, and boundary corner and edge tensors that are the double-layer site tensor with its outer legs traced, in the leg order the renormalisation uses; '
     'every tensor is normalised, and the result does not depend on the order in which sites are treated.',
     ['inputs', 'configurations'], 'every site tensor, bond dimension and cell', TESTS + 'the boundary is forgotten during renormalisation, so a wrong one only changes convergence.',
     ['acetn/ipeps/site_tensor.py'], [('SiteTensor.initialize_site_tensor, initialize_boundary_tensors', 'acetn/ipeps/site_tensor.py')],
     'value-flow analysis: ' + ENGINE, 'Compared with the traced double-layer tensor as exact tensor-network terms.')

prop('C11', 'Reduced density matrices contract exactly the network around the sites',
     'The one-site and two-site density matrices are the contraction of the environment around the site or bond with the site tensors, with the first index (or group of indices) from the bra, i.e. the conjugated tensor, and the second from the ket, for every orientation of the bond and whichever site is given first.',
     ['inputs', 'configurations'], 'every environment, site and bond, in all four bond orientations, real or complex',
     TESTS + 'a transposed or conjugated density matrix gives the same expectation values for real symmetric observables.',
     ['acetn/measurement/rdm.py'], [('RDM', 'acetn/measurement/rdm.py')],
     'value-flow analysis: ' + ENGINE, 'Compared with the two contractions as exact tensor-network terms.')

prop('C12', 'Measured values are trace-normalised averages over the cell',
     'The value of an observable at a site or bond is the expectation value of the operator (not of its transpose or conjugate) in the density matrix divided by the trace of that density matrix; an observable is averaged over all sites, and the energy is the sum of the terms of every site and every bond exactly once, divided by the number of sites. '
     'One-site observables, two-site observables and energies all accept the operator objects and plain tensors the model may return.',
     ['inputs', 'configurations'], 'every model, state, cell size and kind of operator',
     TESTS + 'measured energies are compared on one small cell with one model each.',
     ['acetn/measurement/measure.py', 'acetn/ipeps/ipeps.py'], [('measure, energies', 'acetn/measurement/measure.py')],
     'value-flow analysis: ' + ENGINE, 'Density matrices are taken as named unknowns (C11 decides them).')

prop('C13', 'Measuring does not change the network',
     'Measuring changes no tensor, list or setting of the network and of the model, and measuring twice gives the same values.',
     ['histories'], 'every network, model and option', TESTS + 'none compares the state before and after a measurement.',
     ['acetn/measurement/measure.py', 'acetn/measurement/rdm.py', 'acetn/ipeps/ipeps.py'], [('measure', 'acetn/measurement/measure.py')],
     'effect analysis by ' + ENGINE, 'Every tensor, list and setting reachable from the network is compared before and after in the analysed state.')

prop('C14', 'Imaginary time gates are the exponentials of the model terms',
     'The gate of a bond is exp(-dtau h) where h is the two-site term of that bond plus each end site\'s one-site term shared equally among its bonds, so that all bonds together contain the whole Hamiltonian exactly once; '
     'models may return operator objects or tensors, with or without one-site terms or two-site terms, and making gates leaves the model as it was.',
     ['inputs', 'configurations'], 'every model, site-dependent term, step size and cell',
     TESTS + 'they use translation-invariant models, where the wrong site\'s term is the same as the right one.',
     ['acetn/evolution/gate.py', 'acetn/model/model.py'], [('Gate', 'acetn/evolution/gate.py')],
     'value-flow analysis: ' + ENGINE, 'Gates are compared as exact expressions in named unknown model terms.')

prop('C15', 'The full update solves the truncation problem of the right environment',
     'Updating a bond by full update applies its gate to the two reduced tensors, takes the norm tensor of exactly the environment around that bond, replaces the two site tensors by ones whose product differs only by that truncation, '
     'and every reversible step (reduction, gauge fixing, recombination) leaves the represented state unchanged; the other sites are untouched.',
     ['inputs', 'configurations'], 'every state, bond orientation, option (gauge fixing, positive approximant, solver) and dtype',
     TESTS + 'one bond orientation and real tensors cannot show a swapped leg or a missing conjugate.',
     ['acetn/evolution/full_update.py', 'acetn/evolution/fast_full_update.py', 'acetn/evolution/als_solver.py', 'acetn/evolution/tensor_update.py'],
     [('FullUpdater', 'acetn/evolution/full_update.py'), ('ALSSolver', 'acetn/evolution/als_solver.py'), ('FastFullUpdater', 'acetn/evolution/fast_full_update.py')],
     'value-flow analysis: ' + ENGINE, 'Norm tensor, gate application, reduction/recombination, gauge fixing and the normal equations are compared as exact terms; the convergence of the alternating iteration is numerical and not claimed.')

prop('C16', 'The simple update uses and renews the bond weights consistently',
     'Updating a bond by simple update multiplies each reduced tensor by the weights of its outer bonds, applies the gate, truncates by the singular value decomposition to the bond dimension, stores the new weights on that bond alone and removes the outer weights again exactly; '
     'the two sites always see the same weights for the bond they share.',
     ['inputs', 'configurations'], 'every state, bond, orientation and dtype', TESTS + 'errors in outer weights cancel on uniform states, where all weights are equal.',
     ['acetn/evolution/simple_update.py', 'acetn/evolution/lambda_tensors.py', 'acetn/evolution/tensor_update.py'],
     [('SimpleUpdater', 'acetn/evolution/simple_update.py'), ('LambdaTensors', 'acetn/evolution/lambda_tensors.py')],
     'value-flow analysis: ' + ENGINE, 'Compared as exact terms in named unknown site tensors and weights.')

prop('C17', 'A time step updates every bond of the cell with its own gate',
     'Each imaginary time step applies the gate of every bond of the cell exactly once with the requested step size and the current model parameters, for exactly the requested number of steps and with the configured update method; '
     'the full update renews the environment around a bond before the next one uses it; a run renews the environment before its first update and after its last, and leaves the list of bonds complete.',
     ['configurations', 'histories'], 'every cell, step count, step size and sequence of runs', TESTS + 'a skipped bond or a stale gate still lowers the energy.',
     ['acetn/evolution/evolve.py', 'acetn/ipeps/ipeps.py', 'acetn/evolution/fast_full_update.py'], [('evolve', 'acetn/evolution/evolve.py'), ('Ipeps.evolve', 'acetn/ipeps/ipeps.py')],
     'call-order analysis by ' + ENGINE, 'The sequence of bond updates and renormalisation moves is extracted from the source on concrete cells and step counts.')

prop('C18', 'The compiled solver computes what the PyTorch solver computes',
     'The C++ implementation of the alternating solver forms the same linear systems, solves them the same way and returns the same results as the PyTorch implementation it replaces, for every dtype and shape.',
     ['inputs', 'configurations'], 'every norm tensor, shape and dtype', TESTS + 'the extension needs a GPU library that is absent here, so its tests are skipped.',
     ['csrc/evolution/als_solve.cpp', 'csrc/evolution/als_tensors.cpp', 'csrc/linalg/cholesky_solve.h', 'acetn/evolution/als_solver.py'],
     [('als_solve', 'csrc/evolution/als_solve.cpp')], 'value-flow analysis of the C++ syntax tree (clang) and of the Python source over the same tensor-network terms, compared term by term',
     'cuTENSOR, cuSOLVER and cuBLAS calls are modelled from their documentation; exact arithmetic; iteration counts 0 to 4 (thorough 0 to 6); the status code of the Cholesky factorisation is not considered; asynchronous execution on one stream is taken as in order.')

prop('C19', 'Randomised decompositions factor the product they are given',
     'Each randomised singular value decomposition applies the same product of matrices (and its adjoint) in every power iteration, returns orthonormal factors of the requested number and a factorisation of that product projected onto its sampled range, for real and complex input and any shape.',
     ['inputs'], 'every matrix product, shape, dtype and iteration count', TESTS + 'random real square matrices cannot tell a transpose from an adjoint.',
     ['acetn/linalg/svd_lowrank.py', 'acetn/linalg/fused_matmul_svd_lowrank.py', 'acetn/linalg/fused_3matmul_svd_lowrank.py'],
     [('svd_lowrank and fused variants', 'acetn/linalg')], 'value-flow analysis: ' + ENGINE, 'Structure only: how well the sampled range approximates is probabilistic and not claimed.')

prop('C20', 'All processes of a distributed run take part in the same collectives',
     'In a distributed run every process reaches the same sequence of collective operations with matching roots and compatible shapes, whatever the number of processes and the cell size, so that no run hangs or mixes up messages.',
     ['configurations', 'schedules'], 'every number of processes and cell size', TESTS + 'no test starts more than one process.',
     ['acetn/utils/distributed.py', 'acetn/renormalization/directional_mover.py', 'acetn/ipeps/ipeps.py'],
     [('all_gather_tensor, broadcast_tensor', 'acetn/utils/distributed.py')], 'lock-step SPMD analysis: ' + ENGINE + ', one instance per rank',
     'Concrete process counts and cells.')

prop('C21', 'A distributed run computes what a serial run computes',
     'With any number of processes a distributed run makes the moves and updates of a serial run: a renormalisation absorbs every row and column from all four sides in the same order, computing every projector of a line and using it at its own site; '
     'a full update of a bond is made once and absorbed on both sides; initialisation, copying, saving, loading, simple updates and measurements give every process the tensors and values a single process has. '
     'Opposite moves are made in pairs, whose projectors are taken from the environment before the pair or with the whole opposite move done.',
     ['configurations', 'schedules'], 'every number of processes and cell size, including more processes than sites', TESTS + 'no test starts more than one process.',
     ['acetn/renormalization/directional_mover.py', 'acetn/utils/distributed.py', 'acetn/measurement/measure.py'],
     [('DirectionalMover distributed moves', 'acetn/renormalization/directional_mover.py')], 'lock-step SPMD analysis: ' + ENGINE + ', one instance per rank', 'Concrete process counts and cells.')

prop('C22', 'The process group lives as long as a network needs it',
     'Constructing a network under a multi-process launcher sets up the process group once with the launcher\'s rank, size and address; it stays usable while any network lives, is destroyed once when the last goes, and a single-process run never creates one.',
     ['histories', 'configurations'], 'every launcher environment and order of creating and deleting networks', TESTS + 'no test runs under a launcher.',
     ['acetn/utils/distributed.py', 'acetn/ipeps/ipeps.py'], [('initialize_process_group, destroy_process_group', 'acetn/utils/distributed.py')],
     'typestate analysis by ' + ENGINE, 'Decided for the listed orders of construction, copying and deletion.')

prop('C23', 'Random and rank-local values never make processes diverge',
     'Every tensor that a process creates from random numbers, or computes from its share of the work, and that later enters a shared result is made equal on all processes first.',
     ['schedules', 'configurations'], 'every process count, initialisation and evolution', TESTS + 'no test starts more than one process.',
     ['acetn/ipeps/ipeps.py', 'acetn/utils/distributed.py'], [('Ipeps.initialize_site_tensors', 'acetn/ipeps/ipeps.py')],
     'lock-step SPMD analysis with per-rank unknowns: ' + ENGINE, 'Concrete process counts and cells.')

prop('C24', 'Every configured option takes effect and wrong ones are rejected',
     'Each documented option given in the configuration (dictionary or TOML) reaches the algorithm it names with the given value, options left out have the documented defaults, and an unknown choice or a missing required entry raises an error instead of falling back silently.',
     ['configurations', 'inputs'], 'every option and value', TESTS + 'they set a handful of options and never observe that one took effect.',
     ['acetn/ipeps/ipeps_config.py', 'acetn/renormalization/projectors.py', 'acetn/evolution/evolve.py', 'acetn/evolution/als_solver.py', 'acetn/evolution/full_update.py'],
     [('IpepsConfig', 'acetn/ipeps/ipeps_config.py')], 'dataflow from configuration entry to point of use by ' + ENGINE, 'Defaults are compared with the documentation in docs/source.')

prop('C25', 'Operator algebra on Pauli matrices is exact',
     'Sums, differences, products, scalar multiples, negation, division by scalars and tensor products of operators give the matrices linear algebra prescribes, in the right order and with the right signs and phases, without changing their operands; combinations that are undefined raise an error.',
     ['inputs', 'programs'], 'every operator expression', TESTS + 'the tests evaluate a few expressions.',
     ['acetn/model/pauli_matrix.py'], [('PauliMatrix', 'acetn/model/pauli_matrix.py')], ENGINE + ' (exact matrices with symbolic coefficients)',
     'Every operator on every pair of basic and composite operands with symbolic scalars; deeper expressions by composition.')

prop('C26', 'Built-in models are the Hamiltonians the documentation states',
     'The built-in Ising and Heisenberg models give, on every bond and site and for every parameter value, the documented Hamiltonian terms, observables and initial states, and a model is told the true direction of each bond.',
     ['inputs'], 'every parameter value, site and bond', TESTS + 'they evaluate one parameter set.',
     ['acetn/model/models/ising.py', 'acetn/model/models/heisenberg.py', 'acetn/model/model.py'], [('IsingModel, HeisenbergModel', 'acetn/model/models'), ('Model.bond_direction', 'acetn/model/model.py')],
     ENGINE + ' (exact matrices with symbolic parameters)', 'Exact comparison with matrices written down from the documentation.')

prop('C27', 'A network runs the model and parameters it was given',
     'Evolution and measurement of a network use the model class and parameters set on that network, including later changes of parameters; an unregistered name, a missing model or a class that is not a model raises an error, and other networks keep theirs.',
     ['histories', 'configurations'], 'every order of registering, setting and changing models', TESTS + 'the tests set one model per network.',
     ['acetn/model/model_factory.py', 'acetn/ipeps/ipeps.py', 'acetn/ipeps/ipeps_config.py'], [('ModelFactory.create, register', 'acetn/model/model_factory.py'), ('Ipeps.set_model, set_model_params', 'acetn/ipeps/ipeps.py')],
     'value-flow analysis by ' + ENGINE, 'The listed orders of operations are analysed.')

prop('C28', 'Objects the user passes in are not changed',
     'No operation changes the configuration dictionaries, parameter dictionaries, models, tensors or networks the user passed in, and changing them afterwards does not change a network made from them.',
     ['programs', 'histories'], 'every argument of every public operation', TESTS + 'none inspects its arguments afterwards.',
     ['acetn/ipeps/ipeps_config.py', 'acetn/ipeps/ipeps.py', 'acetn/ipeps/tensor_network.py', 'acetn/evolution/gate.py'], [('IpepsConfig', 'acetn/ipeps/ipeps_config.py')],
     'effect and alias analysis by ' + ENGINE, 'Every mutable object reachable from each argument is compared before and after.')

for id, title, st, why in [
    ('C40', 'Alternating least squares never increases its cost', 'The distance minimised by the alternating solver does not increase from one iteration to the next.',
     'it is a statement about the numbers of every iteration; the structural part (the normal equations solved) is C15'),
    ('C41', 'Imaginary time evolution approaches the ground state', 'With enough steps and large enough dimensions the energy approaches the ground state energy.',
     'convergence of a numerical iteration: no static argument reaches it; the schedule, the gates and the updates are C14 to C17'),
    ('C42', 'The CTM environment converges to the infinite environment', 'Repeated renormalisation converges to the environment of the infinite lattice as chi grows.',
     'convergence of a numerical iteration: no static argument reaches it; each step is C07 to C09'),
    ('C43', 'The randomised decomposition is as accurate as the full one', 'The randomised decomposition gives the leading singular triplets to the accuracy of the full one.',
     'a probabilistic bound over runtime spectra; the structure is C19'),
    ('C44', 'Results do not depend on rounding', 'Results are stable under floating-point rounding: no division by a vanishing weight, no overflow.',
     'quantifies over runtime magnitudes that no static argument in reach can bound')]:
    prop(id, title, st, ['inputs'], 'every state and parameter', 'It depends on numerical values over whole runs.', ['acetn'], [('numerical algorithms', 'acetn')], na=why)
