"""Which functions carry which property: translation unit, anchor functions (by qualified name without template
arguments) and the files their callees are followed into."""
MPOGEN = ('fsm.h', 'coef_op_alg.h', 'sparse_mat.h')
def A(s): return s.split()
PROPS = {
 'C01': dict(tu='core', anchors=A('''CaseParamsParserBasic::(CaseParamsParserBasic|Has|Parse\\w+|TryParse\\w+|StrictParse\\w*)''')),
 'C02': dict(tu='core', anchors=A('''DuoVector::.*''')),
 'C03': dict(tu='core', anchors=A('''CoefRepr::(operator\\+|operator\\+=|Realize|ToString|CoefRepr|operator=|GetCoefLabelList) OpRepr::(operator\\+|operator\\+=|Realize|ToString|OpRepr|operator=|GetOpLabelList|GetCoefReprList)
    SeparateCoefAndBase GetOpReprCoef CoefReprOpReprIncompleteMulti ElemInVec ConcatenateTwoVec''')),
 'C04': dict(tu='core', anchors=A('''CoefRepr::operator(==|!=|<|<=|>|>=) OpRepr::operator(==|!=|<) FSMNode::.*''')),
 'C05': dict(tu='core', anchors=A('''SparMat::.* SparOpReprMat::(SparOpReprMat|operator=|SortRows|SortCols)''')),
 'C06': dict(tu='core', anchors=A('''FSM::GenCompressedMatRepr SparOpReprMat(Row|Col)(Compresser|Delinearize) SparCoefReprMatSparOpReprMatIncompleteMulti SparOpReprMatSparCoefReprMatIncompleteMulti
    CalcSparOpReprMat(Row|Col)LinCmb SparOpReprMat::(Remove(Row|Col)Coef|TryCatch(Row|Col)CommonDivisorCoef|Calc(Row|Col)LinCmb|Sort(Rows|Cols))'''), files=('fsm.h', 'coef_op_alg.h', 'sparse_mat.h')),
 'C07': dict(tu='core', anchors=A('''FSM::(FSM|AddPath|GenMatRepr|GetFSMPaths|phys_size|fsm_size) FSMPath::.* FSMNode::.*'''), files=('fsm.h',)),
 'C08': dict(tu='core', anchors=A('''iFSM::.*'''), files=('ifsm.h', 'fsm.h'), rules=('automaton.parallel_links',), technique='static analysis: value-graph cross-check (abstract interpretation, global value numbering, random interpretation of differing graphs) of every member of the infinite automaton against the confirmed instance, and a type-level rule on its link table'),
 'C09': dict(tu='core', anchors=A('''LabelConvertor::.*''')),
 'C10': dict(tu='full', anchors=A('''MPOGenerator::(MPOGenerator|AddTerm|GetFSM) GenIdOpReprs'''), files=('mpogen_impl.h', 'mpogen.h')),
 'C11': dict(tu='full', anchors=A('''MPOGenerator::(Gen|GenMatReprMPO) ReorderVecToSameElemNearBy AddOpTo(Head|Cent|Tail)MpoTen'''), files=('mpogen_impl.h', 'mpogen.h', 'impo_gen_impl.h')),
 'C12': dict(tu='core', anchors=A('''MemoryMonitor::(MemoryMonitor|GetMemoryInfo|Checkpoint|ListAvailableDevices|GetDeviceId)''')),
 'C13': dict(tu='full', anchors=A('''LanczosParams::.* FiniteVMPSSweepParams::.* TDVPEvolveParams::.* MPITDVPSweepParams::.* MpoVOptimizeParams::.*''')),
 'C14': dict(tu='full', anchors=A('''FiniteMPS::(FiniteMPS|operator.*|\\w*Canonicalize\\w*|Centralize|GetCenter|GetTen\\w*|LoadTen|DumpTen|Reverse) FiniteMPO::(\\w*Canonicalize\\w*|Centralize|GetCenter|operator.*|GetTen\\w*) TruncateMPS'''), files=('finite_mps.h', 'finite_mpo.h', 'ten_vec.h'), rules=('legs.canonical',), technique='static analysis: leg typing of the tensor networks on the value graphs (which space and orientation each leg has; contractions, sums, transposes, decompositions and files as obligations), plus value-graph cross-check with the confirmed instance'),
 'C15': dict(tu='full', anchors=A('''TenVec::.* MPS::.* GenMPSTenName GenMPOTenName FiniteMPS::(LoadTen|DumpTen) FiniteMPO::(Load|Dump) WriteQLTensorTOFile ReadQLTensorFromFile CreatPath IsPathExist
    WriteOperatorGroup ReadOperatorGroup ReadAndRemoveOperatorGroup GenOpFileName'''), files=('ten_vec.h', 'mps.h', 'finite_mps.h', 'finite_mpo.h', 'utilities.h', 'operator_io.h')),
 'C16': dict(tu='full', anchors=A('''InitEnvs InitEnvsMaster GenEnvTenName RemoveFile UpdateSite[LR]envs UpdateBoundaryEnvs NeedGenerateRightEnvs CheckAndUpdateBoundaryMPSTensors FiniteVMPSInit TwoSiteFiniteVMPSInit
    LoadRelatedTens\\w* DumpRelatedTens\\w* DMRG\\w*Executor::(Load|Dump)RelatedTensSweep_ InitBlockOps NeedGenerateBlockOps Update(Boundary|Left|Right)BlockOps UpdateBoundaryBlockOpsMaster
    DMRG\\w*Executor::(InitBlockOps_|InitUpdateRightBlockOps_|GrowLeftBlockOps_|GrowRightBlockOps_|DMRGInit_)'''),
    files=('vmps_init.h', 'vmps_mpi_init_master.h', 'two_site_update_finite_vmps_impl.h', 'single_site_update_finite_vmps_impl.h', 'two_site_update_noise_finite_vmps_impl.h', 'two_site_update_finite_vmps_mpi_impl_master.h', 'dmrg_init.h', 'dmrg_impl.h', 'dmrg_mpi_impl_master.h', 'operator_io.h'), rules=('legs.disk',), technique='static analysis: leg typing of the tensor networks on the value graphs (which space and orientation each leg has; contractions, sums, transposes, decompositions and files as obligations), plus value-graph cross-check with the confirmed instance'),
 'C17': dict(tu='full', anchors=A('''TwoSiteFiniteVMPS(Update|Sweep)? MasterTwoSiteFiniteVMPS(Update)? SingleSiteFiniteVMPS(Update|Sweep)? TwoSiteFiniteTDVP(Sweep|Evolution)? MasterTwoSiteFiniteTDVP(Evolution)? SingleSiteFiniteTDVPBackwardEvolution MasterSingleSiteFiniteTDVPBackwardEvolution
    DMRG\\w*Executor::(TwoSiteUpdate_|DMRGSweep_|Execute|SetEffectiveHamiltonianTerms_|GetEnergy|DMRGPostProcess_) FiniteDMRG MeasureEE LanczosSolver LanczosExpmvSolver MasterLanczosSolver MasterLanczosExpmvSolver DMRGMPIMasterExecutor::LanczosSolver_'''), files=(), rules=('legs.sweeps',), technique='static analysis: leg typing of the tensor networks on the value graphs (which space and orientation each leg has; contractions, sums, transposes, decompositions and files as obligations), plus value-graph cross-check with the confirmed instance'),
 'C18': dict(tu='full', anchors=A('''LanczosSolver LanczosExpmvSolver MasterLanczosSolver MasterLanczosExpmvSolver DMRGMPIMasterExecutor::LanczosSolver_ LanczosFree TridiagGsSolver TridiagExpme1Solver eff_ham_mul_\\w+ Distance InplaceContract
    (Block|Site)(Block|Site)TermsMulTwoSiteState SuperBlockHamiltonianTermMultiTwoSiteState \\w*super_bl\\w+'''), files=()),
 'C19': dict(tu='full', anchors=A('''MasterBroadcastOrder SlaveGetBroadcastOrder BroadcastOrder FinalSignal SlaveTwoSiteFiniteVMPS SlaveTwoSiteFiniteTDVP DMRGMPISlaveExecutor::(Execute|DMRGInit_|SlaveLanczosSolver_) SlaveLanczosSolver MasterLanczosSolver MasterLanczosExpmvSolver
    MasterTwoSiteFiniteVMPS MasterTwoSiteFiniteVMPSWithNoise MasterTwoSiteFiniteTDVP TwoSiteFiniteVMPSWithNoise_ DMRGMPIMasterExecutor::(Execute|LanczosSolver_|DMRGInit_) InitEnvsMaster InitEnvsSlave'''), files=(), rules=('protocol.conformance',), technique='static analysis: session conformance of the two sides of every MPI dispatch (callee-inlined graphs of their collective operations, product exploration: every collective of the master met by the slaves, no side left waiting); value-graph cross-check of the protocol functions with the confirmed instance'),
 'C20': dict(tu='full', anchors=A('''TaskTag (Master|Slave)Grow(Left|Right)Environment(Init)? (master|slave)_two_site_eff_ham_mul_state (Master|Slave)TwoSiteFiniteVMPS(Left|Right)MovingExpand
    DMRGMPIMasterExecutor::(Send\\w+|DynamicHamiltonianMultiplyState_|StaticHamiltonianMultiplyState_|GrowLeftBlockOps_|GrowRightBlockOps_|SetEffectiveHamiltonianTerms_)
    DMRGMPISlaveExecutor::(Recv\\w+|WorkFor\\w+|UpdateRightBlockOpsSlave_)'''), files=(), rules=('legs.parallel',), technique='static analysis: leg typing of the tensor networks on the value graphs (which space and orientation each leg has; contractions, sums, transposes, decompositions and files as obligations), plus value-graph cross-check with the confirmed instance'),
 'C21': dict(tu='full', anchors=A('''DMRGExecutor::(Execute|DMRGSweep_|SetUpSignalHandler_|SignalHandler_|EmergencyDumpRelatedTens_|DMRGExecutor|DMRGPostProcess_)'''), files=(), rules=('signals.safe',), technique='static analysis: call-graph and effect analysis of every installed signal handler against the async-signal-safe list (absolute rule); value-graph cross-check of handler effects and of where the sweep tests the stop flags'),
 'C22': dict(tu='full', anchors=A('''(HubbardOperators|tJOperators|SpinOneHalfOperators)::\\w+'''), rules=('operators.algebra',), technique='static analysis: the constant tables the operator constructors write are read off their value graphs and compared with the matrices defined by the particle content of each local state (absolute rule); value-graph cross-check for everything else'),
 'C23': dict(tu='full', anchors=A('''sites::(HubbardSite|tJSite|SpinOneHalfSite|ModelSiteBase)::\\w+'''), rules=('operators.charges',), technique='static analysis: quantum-number tables read off the value graphs of the site constructors, every operator table entry checked to connect sectors consistent with one flux (absolute rule); value-graph cross-check for everything else'),
 'C24': dict(tu='full', anchors=A('''AddHubbardHoppingTerms AddTJHoppingTerms AddHeisenbergCoupling'''), files=(), rules=('operators.model_terms',), technique='static analysis: the AddTerm call sequences of the model helpers are read off their value graphs and summed as exact operators on the particle-content basis with Jordan-Wigner strings, compared with the stated hopping / exchange operator (absolute rule); value-graph cross-check for everything else'),
 'C25': dict(tu='full', anchors=A('''FiniteMPO::(SimpleProduct|Trace|Truncate|Normalize) MpoProduct'''), files=(), rules=('returns.promised',), technique='static analysis: completion analysis (control flow, noreturn calls, switch coverage) of every value-returning function body in the type-checked program, with the value-graph cross-check of the MPO operations'),
 'C26': dict(tu='full', anchors=A('''SingleSiteFiniteVMPS SingleSiteFiniteVMPS(Sweep|Update|Expand) TwoSiteFiniteVMPSWithNoise TwoSiteFiniteVMPSWithNoise_ MasterTwoSiteFiniteVMPSWithNoise TwoSiteFiniteVMPS(Sweep|Update|Expand) CalEnergyEpt(Two|Single)Site IsQNCovered FiniteVMPSSweepParams::FiniteVMPSSweepParams'''), files=('single_site_update_finite_vmps_impl.h', 'two_site_update_noise_finite_vmps_impl.h', 'two_site_update_noised_finite_vmps_mpi_impl.h', 'finite_vmps_sweep_params.h')),
 'C27': dict(tu='full', anchors=A('''CreatPath RemoveFile GenEnvTenName GenMPSTenName GenMPOTenName GenOpFileName DumpMeasuRes'''), files=()),
 'C28': dict(tu='full', anchors=A('''Measure\\w+ CtrctMidTen LeftTempTen::.* DumpMeasuRes DynamicMeasuResElem::.* ActMpoOnMps ActOperatorOnMps CalPsi1OpPsi2 DumpSites DumpAvgVec CtrctMidTen OneSiteOpAvg TwoSiteOpAvg MultiSiteOpAvg IsOrderKept'''), files=('finite_mps_measu_memory.h', 'finite_mps_measu_disk.h', 'two_site_update_finite_tdvp_impl.h'), optional=True, rules=('legs.measure',), technique='static analysis: leg typing of the tensor networks on the value graphs (which space and orientation each leg has; contractions, sums, transposes, decompositions and files as obligations), plus value-graph cross-check with the confirmed instance'),
 'C29': dict(tu='full', anchors=A('''eff_ham_mul_\\w+ InplaceContract LanczosFree'''), files=(), rules=('openmp.conflicts',), technique='static analysis: interprocedural effect analysis of every OpenMP construct of the type-checked program (access paths read and written, through references, pointers, callees and globals) with a disjointness test between iterations, sections and threads; value-graph cross-check of the functions containing them'),
 'C30': dict(tu='full', anchors=A('''SiteVec::.* GenIdOp SetIndexDirOut'''), files=('site_vec.h',)),
 'C35': dict(tu='full', anchors=A('''DirectStateInitMps DirectStateInitZeroDivMps ExtendDirectRandomInitMps FiniteMPSAdd FiniteMPSInnerProd FiniteMPS::(GetEntanglementEntropy|Reverse)'''), files=('finite_mps_init.h', 'finite_mps_ops.h', 'finite_mps.h'), rules=('legs.states',), technique='static analysis: leg typing of the tensor networks on the value graphs (which space and orientation each leg has; contractions, sums, transposes, decompositions and files as obligations), plus value-graph cross-check with the confirmed instance'),
 'C36': dict(tu='full', anchors=A('''FiniteMPO::(Square|SquareAndNormlize|GetMaxBondDim|operator\\+=|operator\\+|operator\\*=|Scale|Normalize|Trace|Truncate) MpoProduct MPOProductVariationalSingleStep Generate3MPOEnvs GenerateIdentityMPO UpdateLenv UpdateRenv ExpFiniteMPO GenHnMpoPath MemUsage'''), files=('finite_mpo.h', 'finite_mpo_utility.h', 'exp_finite_mpo.h', 'mat_repr_mpo.h'), rules=('legs.algebra',), technique='static analysis: leg typing of the tensor networks on the value graphs (which space and orientation each leg has; contractions, sums, transposes, decompositions and files as obligations), plus value-graph cross-check with the confirmed instance'),
 'C37': dict(tu='full', anchors=A('''ActMpoOnMps ActOperatorOnMps CalPsi1OpPsi2 TwoSiteFiniteTDVPEvolution SingleSiteFiniteTDVPBackwardEvolution TwoSiteFiniteTDVPSweep TwoSiteFiniteTDVP'''), files=('two_site_update_finite_tdvp_impl.h',), rules=('legs.evolution',), technique='static analysis: leg typing of the tensor networks on the value graphs (which space and orientation each leg has; contractions, sums, transposes, decompositions and files as obligations), plus value-graph cross-check with the confirmed instance'),
}
NOT_APPLICABLE = {
 'C31': 'the claim bounds floating-point eigenvalues produced by tensor contractions of a library (TensorToolkit) that is not part of this repository; no static argument over this source can bound them',
 'C32': 'norm conservation and order of accuracy of time evolution are quantitative statements about floating-point tensor contractions of a library outside this repository; not decidable from this source',
 'C33': 'numerical agreement of distributed and serial runs depends on the tensor library and on floating-point summation order; the structural part that source analysis can decide is claimed separately (C17, C19, C20)',
 'C34': 'quantifies over every instant at which the process can be killed, and the code base offers no atomic replacement or journal that would make a static crash argument possible; files are overwritten in place, the ordering facts that can be decided are claimed in C15, C16 and C21',
}
