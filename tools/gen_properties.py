#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that statements and anchors stay reviewable)."""
import json, os
H = 'include/qlmps/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [H + f for f in files], "mechanism": [{"name": n, "where": H + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": H + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PARSER = 'case_params_parser.h'
DUO = 'one_dim_tn/framework/duovector.h'
TENV = 'one_dim_tn/framework/ten_vec.h'
COEF = 'one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h'
SPAR = 'one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h'
FSM = 'one_dim_tn/mpo/mpogen/fsm.h'
IFSM = 'one_dim_tn/mpo/mpogen/ifsm.h'
GEN = 'one_dim_tn/mpo/mpogen/mpogen_impl.h'
IGEN = 'one_dim_tn/mpo/mpogen/impo_gen_impl.h'
MEM = 'memory_monitor.h'
LANP = 'algorithm/lanczos_params.h'
SWP = 'algorithm/finite_vmps_sweep_params.h'
TDP = 'algorithm/tdvp/tdvp_evolve_params.h'
FMPS = 'one_dim_tn/mps/finite_mps/finite_mps.h'
FMPO = 'one_dim_tn/mpo/finite_mpo/finite_mpo.h'
FMPOU = 'one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h'
MPSH = 'one_dim_tn/mps/mps.h'
UTIL = 'utilities.h'
V2 = 'algorithm/vmps/two_site_update_finite_vmps_impl.h'
V2N = 'algorithm/vmps/two_site_update_noise_finite_vmps_impl.h'
V1 = 'algorithm/vmps/single_site_update_finite_vmps_impl.h'
VINIT = 'algorithm/vmps/vmps_init.h'
LV = 'algorithm/vmps/lanczos_vmps_solver_impl.h'
LD = 'algorithm/dmrg/lanczos_dmrg_solver_impl.h'
LE = 'algorithm/tdvp/lanczos_expmv_solver_impl.h'
TD = 'algorithm/tdvp/two_site_update_finite_tdvp_impl.h'
DM = 'algorithm/dmrg/dmrg_impl.h'
DMI = 'algorithm/dmrg/dmrg_init.h'
OIO = 'algorithm/dmrg/operator_io.h'
M = 'algo_mpi/'
MORD = M + 'mps_algo_order.h'
MLM = M + 'vmps/lanczos_solver_mpi_master.h'
MLS = M + 'vmps/lanczos_solver_mpi_slave.h'
MVM = M + 'vmps/two_site_update_finite_vmps_mpi_impl_master.h'
MVS = M + 'vmps/two_site_update_finite_vmps_mpi_impl_slave.h'
MVN = M + 'vmps/two_site_update_noised_finite_vmps_mpi_impl.h'
MVI = M + 'vmps/vmps_mpi_init_master.h'
MVIS = M + 'vmps/vmps_mpi_init_slave.h'
MEM_ = M + 'env_ten_update_master.h'
MES = M + 'env_ten_update_slave.h'
MDM = M + 'dmrg/dmrg_mpi_impl_master.h'
MDS = M + 'dmrg/dmrg_mpi_impl_slave.h'
MDL = M + 'dmrg/lanczos_dmrg_solver_mpi_master.h'
MTM = M + 'tdvp/two_site_update_finite_tdvp_mpi_impl_master.h'
MTS = M + 'tdvp/two_site_update_finite_tdvp_mpi_impl_slave.h'
MTL = M + 'tdvp/lanczos_expmv_solver_mpi.h'
OH = 'model_relevant/operators/fermion/hubbard_operators.h'
OT = 'model_relevant/operators/fermion/tJ_operators.h'
OS = 'model_relevant/operators/spin/spin_one_half_operators.h'
SH = 'model_relevant/sites/fermion/hubbard_sites.h'
ST = 'model_relevant/sites/fermion/tJ_sites.h'
SS = 'model_relevant/sites/spin/spin_one_half_sites.h'

p('C01', 'Parameter lookups never invent, misplace or silently drop a value',
  "A mandatory lookup returns the value stored under exactly the requested key or ends the process with a failure status, and a lookup with a default yields that default only when the key is absent (converting a stored value to the requested type is the JSON library's business). "
  "A non-fatal lookup never ends the process nor lets an exception escape, and it reports success exactly when it has stored the value in the caller's variable, leaving that variable untouched otherwise. "
  "A list of unsigned integers is never built from a negative or non-integer entry, and an empty string read as a character gives the NUL character.",
  ['inputs', 'configurations'], 'every JSON document, key, stored type and default value, on every path through each lookup function',
  'the one parser test reads two fixed JSON files; it cannot reach exits (they would end the test process), most key/type pairs, or the state of the output variable on every failing path',
  [PARSER], [('strict lookup, optional lookup, TryParse family', PARSER)])

p('C02', 'The pointer container owns every element exactly once',
  "Copying a fixed-size element container gives an independent deep copy of the same length in which exactly the empty slots stay empty; moving transfers every element to the destination and leaves the source owning none; assigning a container to itself changes nothing. "
  "Every owned element is destroyed exactly once, and never read, returned or shared after that. "
  "Access, allocation and release by index act on the requested slot only, allocation always yields a fresh default element, and releasing leaves the slot empty.",
  ['histories', 'inputs'], 'every sequence of construction, copy, move, assignment, allocation, release and access, for every length and every pattern of empty slots',
  'three tests exercise a handful of short sequences with int elements and would not see a leak, a shared element, or an aliasing assignment',
  [DUO], [('copy/move constructors and assignments, alloc, dealloc, clear, destructor', DUO)],
  [('slot vector', 'owning raw pointers, null = empty slot', DUO)])

p('C03', 'Symbolic addition and realisation keep every contribution',
  "Adding symbolic coefficients or operators keeps every contribution with its multiplicity: labels that meet are summed, labels that do not meet are carried over, and neither operand is changed except the target of an in-place addition. "
  "Turning a symbolic coefficient or operator into a number, operator or text accounts for each of its labels exactly once, with its own coefficient. "
  "Splitting an operator into a common coefficient and a base is done only when all its coefficients agree, so that coefficient times base is again the operator.",
  ['inputs'], 'every pair of symbolic coefficients/operators with arbitrary labels, repetitions and lengths',
  'the tests use one to three labels per expression and never print sums with more than one distinct label',
  [COEF], [('CoefRepr / OpRepr arithmetic, Realize, ToString, SeparateCoefAndBase', COEF)])

p('C04', 'Equality and ordering of symbolic values are consistent',
  "Two symbolic coefficients are equal exactly when they contain the same labels with the same multiplicities, whatever the order in which these were added, and two symbolic operators are equal exactly when they have the same basis operators with equal coefficients. "
  "Inequality is the negation of equality, and the less-than relations used as map keys are strict orders in which equal values are never ordered one before the other. "
  "Automaton states compare by position first and state second, consistently across equality, less-than and greater-than.",
  ['inputs'], 'all pairs of values, including the same sum written in a different order',
  'tests compare a few hand-written pairs, never the ordering relations of sums',
  [COEF, FSM], [('comparison operators', COEF), ('FSMNode comparison operators', FSM)])

p('C05', 'Sparse symbolic matrix edits affect exactly the addressed cells',
  "Reading a cell, row or column of the sparse symbolic matrix returns exactly the elements last stored at those coordinates, with empty cells reading as the null element, and storing, removing, swapping or permuting rows and columns changes exactly the addressed cells, for any shape. "
  "After removing a row or column the remaining ones keep their order and contents and the recorded shape matches the storage. "
  "Permuting by a list puts old row (or column) list[i] at position i; copies are complete and equality compares shape and all cells.",
  ['inputs', 'histories'], 'every matrix shape, filling and sequence of edits',
  'tests use a few 2x2 to 3x3 matrices; an index error for other shapes or a later edit on stale storage is not reached',
  [SPAR], [('SetElem, GetRow/GetCol, RemoveRow/RemoveCol, Swap*, Transpose*', SPAR)],
  [('index table', 'row-major table of positions into the element list, -1 = empty', SPAR)])

p('C06', 'Compressing the symbolic automaton preserves the Hamiltonian',
  "Whenever compression transforms one symbolic matrix, the neighbour that shares the bond receives the compensating transformation: the same permutation, the extracted coefficients at the same positions, and the same linear-combination matrix. "
  "A row or column is deleted only after the combination that is recorded for the neighbour has been compared with the row or column being deleted and found equal to it. "
  "Each bond is processed once in each direction over the whole chain, always pairing a site with its adjacent neighbour.",
  ['inputs', 'programs'], 'every list of Hamiltonian terms, chain length and coefficient pattern',
  'two small automata are compared with stored matrices; the claim is about any set of terms',
  [COEF, FSM], [('RowCompresser/ColCompresser, RowDelinearize/ColDelinearize, incomplete multiplication, linear combination search', COEF), ('GenCompressedMatRepr', FSM)])

p('C07', 'Each added term becomes exactly one path of the finite automaton',
  "Each term added on a finite chain becomes exactly one path that is in the ready state up to its first site, in intermediate states used by no other term inside its support, and in the final state after its last site, carrying the term's operators inside and the identity of that site outside. "
  "The matrices built from the automaton contain every path's operator in the cell of its two states, distinct operators meeting in one cell are added, and matrix shapes of neighbouring sites agree. "
  "A term is never dropped because an identical term was added before.",
  ['programs', 'inputs'], 'every sequence of added terms, supports and chain lengths',
  'tests add at most a few non-overlapping terms on short chains',
  [FSM], [('AddPath, GenMatRepr', FSM)])

p('C08', 'The infinite automaton stays inside its unit cell',
  "In the automaton of an infinite chain every state position is taken modulo the unit cell, every state that is entered can be left, and operators linking the same two states are added. "
  "A new term starts in the ready state, ends in the final state, and adding a valid term never aborts.",
  ['programs', 'inputs'], 'every sequence of added terms on every unit cell',
  'there is no runnable test of the infinite automaton',
  [IFSM, IGEN, FSM], [('iFSM constructor, AddPath, GenMatRepr', IFSM)])

p('C09', 'Labels and labelled objects correspond one to one',
  "Converting an object to a label returns the position at which an equal object is stored in the label table, an object that was not known is stored at the end under the returned label, and known objects are never stored twice. "
  "Existing labels never change meaning, and the table handed out lists objects in label order.",
  ['histories'], 'every sequence of conversions',
  'one test converts a couple of integers',
  [FSM], [('LabelConvertor::Convert', FSM)])

p('C10', 'Adding a term hands every operator to its own site',
  "A Hamiltonian term given by operators and sites reaches the automaton with each operator on its own site in ascending site order, the identity on the sites between, its coefficient carried exactly once, and sign normalisations of operators compensated in the coefficient. "
  "Insertion operators are placed on exactly the sites strictly between the physical operators they belong to, or on the sites given, and a trailing insertion covers exactly the sites after the last physical operator.",
  ['programs', 'inputs'], 'every term: any coefficient, operator list, site list (sorted or not) and insertion specification',
  'the tests of the term generator need the tensor library and compare a few Hamiltonians',
  [GEN, IGEN], [('MPOGenerator::AddTerm family', GEN)])

p('C11', 'Generated MPO tensors agree on shared bonds',
  "When the symbolic matrices are turned into MPO tensors, the ordering chosen for a bond is applied to the columns of the left tensor's matrix and to the rows of the right tensor's matrix, and the right tensor's left bond is the inverse of the left tensor's right bond. "
  "Every non-null symbolic element is realised into the tensor block addressed by its own row and column, and every site of the chain gets exactly one tensor.",
  ['programs', 'inputs'], 'every Hamiltonian and chain length',
  'tests compare a few MPOs and need the tensor library',
  [GEN], [('MPOGenerator::Gen, GenMatReprMPO', GEN)])

p('C12', 'The memory monitor reports consistent gigabytes',
  "The monitor reports total, free and used memory in units of 1024^3 bytes taken from the operating system's counters scaled by the unit the system states, with used plus free equal to total. "
  "A failing system query raises an error instead of returning numbers.",
  ['configurations'], 'every machine state and system-call outcome',
  'there is no test of the monitor; values depend on the machine',
  [MEM], [('MemoryMonitor::GetMemoryInfo', MEM)])

p('C13', 'Parameter objects hold exactly what they were given',
  "Every argument given when constructing Lanczos, sweep or time-evolution parameters arrives unchanged in the setting of the same name, settings not given take the documented defaults, and copying preserves all settings. "
  "Sweep parameters without noise are marked as noise-free, and sweep parameters with a noise list are marked as noisy exactly when some entry is non-zero. "
  "Converting time-evolution parameters into sweep parameters carries over step count, bond limits, truncation error, solver settings and directories.",
  ['inputs', 'configurations'], 'every combination of constructor arguments',
  'no runnable test constructs these and reads every member back',
  [LANP, SWP, TDP], [('constructors and member initialisers', SWP)])

p('C14', 'Canonical-form bookkeeping never claims more than is true',
  "After any operation of a finite MPS, a site is recorded as left- or right-canonical only if the last operation on its tensor was the corresponding canonicalisation of that site, and the recorded centre is only valid while every site left (right) of it is recorded left- (right-) canonical. "
  "Writable access to a tensor, and loading, replacing or releasing one, removes its canonical status and the centre.",
  ['histories', 'programs'], 'every sequence of public MPS operations',
  'tests check tensors after chosen sequences and do not read the record after writes through each access path',
  [FMPS, TENV, DUO], [('tens_cano_type_, center_ and the mutators', FMPS)])

p('C15', 'Stored tensors are written, read and released consistently',
  "A tensor stored for a site is written to and read back from the file named after that site in the given directory, for whole chains and single sites alike, and loading a whole chain reads every site exactly once. "
  "A read that cannot open its file reports failure to its caller. "
  "A tensor is released from memory, or a file removed, only after the write or read that makes this safe has been carried out.",
  ['programs', 'fault_sequences'], 'every store/load call and every file-open outcome',
  'tests run on a healthy file system and check round trips of whole states only',
  [TENV, MPSH, FMPS, UTIL, OIO, FMPO], [('TenVec Dump/Load, WriteQLTensorTOFile, ReadQLTensorFromFile', UTIL)])

p('C16', 'Sweeps read exactly the environments that earlier steps wrote',
  "In every sweep of every two-site and one-site algorithm, serial or distributed, the environment files read at a bond are those that initialisation or the previous steps wrote for that bond: a right-moving step consumes one right environment and produces the next left environment, a left-moving step the mirror image. "
  "The length in an environment's file name is the number of sites it covers, it is written before it is read and removed only after it was loaded, and the boundary environments are kept.",
  ['histories', 'configurations'], 'every system size, boundary pair and number of sweeps',
  'tests run a few sizes and need the tensor library',
  [V2, V2N, V1, TD, DM, MVM, MVN, MTM, MDM, VINIT, DMI], [('LoadRelatedTensOnTwoSiteAlg / DumpRelatedTensOnTwoSiteAlg and siblings', V2)])

p('C17', 'Serial and distributed variants apply the same update',
  "For each algorithm, the serial and the distributed variant select the same active sites for each position and direction, bound the truncation by the same settings, absorb the singular values and advance the centre in the direction of the sweep, and report truncation, energy and entropy of the same bond.",
  ['configurations', 'schedules'], 'every position, direction and process count',
  'the distributed variants have no test that runs without the tensor library and several processes',
  [V2, MVM, V2N, MVN, TD, MTM, DM, MDM], [('two-site update functions', V2)])

p('C18', 'Krylov solvers stay inside their buffers and release them once',
  "For every iteration limit of at least one and every problem size, each Lanczos solver only reads or writes Krylov vectors and coefficients that exist, ends no later than the iteration limit, and reports the number of Krylov vectors it used. "
  "Every Krylov vector and temporary it allocates is released exactly once on every exit, except the state it returns.",
  ['inputs', 'configurations'], 'every iteration limit, convergence step and problem size',
  'tests run with the default limit of 200 and converge earlier; leaks and out-of-range accesses on rare exits are invisible',
  [LV, LD, LE, MLM, MDL, MTL], [('LanczosSolver, LanczosExpmvSolver and distributed masters', LV)])

p('C19', 'Master and workers follow the same order protocol',
  "Every order a master can broadcast is handled by the workers that listen at that point, every handled order leads both sides through matching collective operations, and both sides return to waiting for the next order together. "
  "Every exit of a distributed eigensolver first ends the workers' solver loop, and every exit of a distributed algorithm first ends the workers.",
  ['schedules', 'histories'], 'every sequence of orders the masters can generate and any number of workers',
  'no test starts more than one process here',
  [MORD, MLM, MLS, MVM, MVS, MVN, MEM_, MES, MDM, MDS, MDL, MTM, MTS, MTL, MVI, MVIS], [('order broadcast and worker dispatch loops', MORD)])

p('C20', 'Distributed task messages pair up and cover every task once',
  "For each distributed contraction, each message a worker waits for is sent by the master under the same tag convention and the other way round, each task is handed out exactly once, and each worker receives one end signal after its last task. "
  "A worker without tasks takes part in exactly the collective operations the others take part in.",
  ['schedules'], 'every task count, worker count and completion order',
  'no test starts more than one process here',
  [MLM, MLS, MEM_, MES, MDM, MDS, MDL, MTM], [('task distribution loops', MLS)])

p('C21', 'Stop requests end a DMRG run in a restartable state',
  "A graceful stop request lets the current sweep finish and then ends the run through the normal final storing of the state; an urgent stop request ends the sweep after the current step once its tensors have been stored. "
  "Signal handlers only set flags and use async-signal-safe calls, and the previous handlers are restored.",
  ['schedules', 'crash_points'], 'a signal arriving at any instruction',
  'tests do not send signals',
  [DM], [('signal handler, stop flags, emergency dump', DM)])

p('C22', 'Built-in operator tables satisfy their algebra',
  "In every supported symmetry setting the built-in operators of the spin-1/2, t-J and Hubbard models satisfy their defining relations on the site's basis: identity, Hermitian conjugate pairs, spin commutators, number operators from creation and annihilation, fermion parity and its anticommutation, and composite operators equal to the products they are named after.",
  ['configurations'], 'every model, symmetry type and operator',
  'operator tests need the tensor library and sample single relations',
  [OH, OT, OS, SH, ST, SS], [('operator constructors', OH)])

p('C23', 'Basis numbering and quantum numbers agree',
  "For every model and symmetry setting the basis numbering of a site is a bijection onto the local states, each state's quantum numbers are those its particle content and spin imply, and every built-in operator changes the conserved quantum numbers by one definite amount. "
  "The incoming physical index is the inverse of the outgoing one.",
  ['configurations'], 'every model, symmetry type, state and operator',
  'site tests need the tensor library',
  [SH, ST, SS, OH, OT, OS], [('site constructors', SH)])

p('C24', 'Convenience Hamiltonian terms are the advertised Hermitian operators',
  "The convenience functions add, for either order of the two sites, exactly the advertised Hubbard hopping, t-J hopping and Heisenberg exchange on those two sites, as a Hermitian operator with correct fermion signs.",
  ['inputs', 'configurations'], 'every coupling, site pair and order, every symmetry type',
  'tests of the term helpers need the tensor library and compare one geometry',
  [OH, OT, OS], [('AddHubbardHoppingTerms, AddTJHoppingTerms, AddHeisenbergCoupling', OH)])

p('C25', 'Every value-returning operation returns a value',
  "Every library operation that promises a result returns one on every path that ends normally.",
  ['programs'], 'every instantiation of every function and every path',
  'the functions concerned are not instantiated by the runnable tests',
  [FMPO, FMPOU, IGEN], [('return statements', FMPO)])

p('C26', 'Noise follows its schedule and stays bounded',
  "With noise requested, sweep k starts from the k-th listed noise (the last one when the list is shorter), later changes of the noise multiply it by the configured rates and never exceed the configured maximum, and updates without noise add none. "
  "With an empty noise list the noisy entry points run the noise-free algorithm once and return its result.",
  ['configurations', 'histories'], 'every noise list, sweep count and control setting',
  'tests use one noise list and need the tensor library',
  [V1, V2N, MVN, SWP], [('noise schedule in the sweep loops', V2N)])

p('C27', 'Files are created and removed only under the configured directories',
  "Every file or directory the library opens for writing, creates or removes has a path that begins with a directory the caller configured (or its documented default); nothing else on the file system is modified, and no shell is invoked.",
  ['programs', 'configurations'], 'every write, creation and removal site in the library',
  'tests look at selected outputs, not at every effect of every call',
  [TENV, MPSH, FMPS, UTIL, OIO, V2, V2N, V1, TD, DM, MDM, MVM], [('file naming helpers', UTIL)])

p('C28', 'Measurements report one result per requested operator and site set',
  "A measurement returns exactly one result for each requested site, site set or operator, labelled with the sites it belongs to and in the order requested, and temporary measurement data is removed when the measurement ends.",
  ['inputs', 'configurations'], 'every operator list, site list and chain length',
  'measurement tests need the tensor library and use a few site lists',
  ['one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h', 'one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h'],
  [('measurement functions', 'one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h')])

p('C29', 'Parallel regions have no conflicting writes',
  "In every thread-parallel region each shared location that is written is written by one iteration or section only and read by no other.",
  ['schedules'], 'every thread count and interleaving',
  'tests cannot enumerate interleavings and run with the default thread count',
  [LV], [('OpenMP regions', LV)])

p('C30', 'Site vectors describe every site once',
  "A site vector has one outgoing local space and one matching identity operator per site, in order, for uniform and for mixed chains, and copies preserve all of it.",
  ['inputs'], 'every chain length and list of local spaces',
  'site-vector tests need the tensor library',
  ['site_vec.h'], [('SiteVec constructors', 'site_vec.h')])

p('C31', 'Ground-state energies are variational and converge',
  "For every Hermitian Hamiltonian the energies reported by the VMPS and DMRG sweeps are upper bounds of the exact ground-state energy up to the stated truncation and solver errors, and do not increase from sweep to sweep without noise.",
  ['inputs', 'configurations'], 'every Hamiltonian, initial state and parameter set',
  'tests compare a few models with known energies',
  [V2, DM, V1, LV], [('sweep algorithms', V2)])

p('C32', 'Time evolution is unitary and second-order accurate',
  "Time evolution conserves norm and energy up to truncation and solver error and converges to the exact evolution with the documented order in the time step.",
  ['inputs', 'configurations'], 'every Hamiltonian, state, time step',
  'tests compare a single small model',
  [TD, LE], [('two-site TDVP', TD)])

p('C33', 'Distributed and serial runs give the same numbers',
  "A distributed run gives, up to rounding, the same energies, truncation errors and states as the serial run with the same input, for every number of processes and every message timing.",
  ['schedules', 'configurations'], 'every process count and schedule',
  'no distributed test runs here',
  [MVM, MDM, MTM], [('distributed algorithms', MVM)])

p('C34', 'A killed run can be continued from its files',
  "If the process is killed at any instant, the files on disk allow the run to be continued from the last completed step.",
  ['crash_points'], 'every instant of a run',
  'tests do not kill the process',
  [V2, DM, TENV], [('stored MPS and environments', V2)])

p('C35', 'State initialisation and state arithmetic build a consistent chain',
  "A state initialised from site labels has one tensor per site; neighbouring tensors share their bond, the two outer bonds are one-dimensional, each local tensor holds exactly the requested basis state, and the quantum numbers of the bonds account for the charges of the sites, so that the state carries the total charge of the labels. The sum of two states has the bonds of both at every site and keeps the outer bonds. The inner product contracts every site of both states once, in order. Entanglement entropies are reported for every bond, from normalised weights.",
  ['inputs', 'configurations'], 'every chain length, label list and pair of states',
  'the state functions need the tensor library; tests use a few labels and sizes and check overlaps to a tolerance',
  ['one_dim_tn/mps/finite_mps/finite_mps_init.h', 'one_dim_tn/mps/finite_mps/finite_mps_ops.h', FMPS],
  [('direct and random initialisation', 'one_dim_tn/mps/finite_mps/finite_mps_init.h'), ('sum and inner product', 'one_dim_tn/mps/finite_mps/finite_mps_ops.h'), ('entanglement entropy', FMPS)])

p('C36', 'Operator algebra on MPOs multiplies, adds and exponentiates the operators given',
  "The product of two MPOs contracts, at every site, the lower legs of the first with the upper legs of the second and fuses their bonds in the same order on both sides of every bond; the variational product uses environments of all three operators that match the sites left and right of the pair being updated. Sums keep outer bonds and combine inner ones. Scaling changes one tensor only and keeps the known center. The exponential sums the terms (-tau H)^n / n! in order starting with the identity, and returns the normalised operator with its norm.",
  ['inputs', 'configurations'], 'every pair of operators, chain length, truncation setting and Taylor order',
  'operator algebra needs the tensor library; tests compare traces of a few small operators',
  [FMPO, FMPOU, 'one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h', 'one_dim_tn/mpo/mat_repr_mpo.h'],
  [('MPO product and its variational form', FMPOU), ('MPO sum, scaling and truncation', FMPO), ('Taylor expansion', 'one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h')])

p('C37', 'Time evolution contracts each local problem with the environments around it',
  "In every step of a time-evolution sweep the effective Hamiltonian consists of the environments of exactly the sites being evolved and of their Hamiltonian tensors; the forward step evolves two sites, the following backward step evolves the site that stays in the middle and uses environments that include the tensor just split off; the state keeps its bonds consistent after every step. Applying a local operator, or an MPO, contracts it with the local leg of the sites concerned and leaves bonds of neighbouring sites matching, and the overlap <psi1|O|psi2> at every site uses the environments left and right of that site.",
  ['inputs', 'histories'], 'every chain, sweep direction and number of steps',
  'evolution needs the tensor library; tests follow a few observables of one model',
  [TD, LE], [('evolution steps, local operators and overlaps', TD)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
