"""Frozen tables from the SPIR-V 1.0 specification (with the 1.1 loop-control
bits this library reads): opcodes, operand layouts, enumerants, masks, names.
They are written from the standard, not derived from the code under analysis."""

# field kinds:
#   id rid lit mem ver   one word, wrapped as OpId / ResultId / u32 / MemberIndex / SourceVersion
#   str                  string literal
#   E:<enum>  M:<mask>   enumerated / mask operand
#   ?k                   optional trailing operand      *k  trailing list
#   phi weights          operand pairs
_S2 = 'result_type:id result_id:rid operand1:id operand2:id'
_OPS = '''
0 OpNop
1 OpUndef result_type:id result_id:rid
2 OpSourceContinued continued_source:str
3 OpSource language:E:SourceLanguage version:ver file:?id source:?str
4 OpSourceExtension extension:str
5 OpName target:id name:str
6 OpMemberName struct_type:id member:mem name:str
7 OpString result_id:rid string:str
10 OpExtension name:str
11 OpExtInstImport result_id:rid name:str
12 OpExtInst result_type:id result_id:rid set:id instruction:ext
14 OpMemoryModel addressing_model:E:AddressingModel memory_model:E:MemoryModel
15 OpEntryPoint execution_model:E:ExecutionModel entry_point:id name:str interface:*id
16 OpExecutionMode entry_point:id mode:E:ExecutionMode
17 OpCapability capability:E:Capability
19 OpTypeVoid result_id:rid
20 OpTypeBool result_id:rid
21 OpTypeInt result_id:rid width:lit signedness:E:Signedness
22 OpTypeFloat result_id:rid width:lit
23 OpTypeVector result_id:rid component_type:id component_count:lit
24 OpTypeMatrix result_id:rid column_type:id column_count:lit
25 OpTypeImage result_id:rid sampled_type:id dim:E:Dim depth:E:DepthStatus arrayed:E:Arrayed ms:E:MS sampled:E:SampledStatus format:E:ImageFormat access_qualifier:?E:AccessQualifier
26 OpTypeSampler result_id:rid
27 OpTypeSampledImage result_id:rid image_type:id
28 OpTypeArray result_id:rid element_type:id length:id
29 OpTypeRuntimeArray result_id:rid element_type:id
30 OpTypeStruct result_id:rid member_types:*id
31 OpTypeOpaque result_id:rid name:str
32 OpTypePointer result_id:rid storage_class:E:StorageClass pointed_type:id
33 OpTypeFunction result_id:rid return_type:id parameter_types:*id
34 OpTypeEvent! result_id:rid
35 OpTypeDeviceEvent! result_id:rid
37 OpTypeQueue! result_id:rid
38 OpTypePipe! result_id:rid access_qualifier:E:AccessQualifier
39 OpTypeForwardPointer! pointer_type:id storage_class:E:StorageClass
43 OpConstant result_type:id result_id:rid value:*lit
44 OpConstantComposite result_type:id result_id:rid constituents:*id
54 OpFunction result_type:id result_id:rid function_control:M:FunctionControl function_type:id
55 OpFunctionParameter result_type:id result_id:rid
56 OpFunctionEnd
59 OpVariable result_type:id result_id:rid storage_class:E:StorageClass initializer:?id
61 OpLoad result_type:id result_id:rid pointer:id memory_access:?M:MemoryAccess
62 OpStore pointer:id object:id memory_access:?M:MemoryAccess
65 OpAccessChain result_type:id result_id:rid base:id indexes:*id
71 OpDecorate target:id decoration:E:Decoration
72 OpMemberDecorate structure_type:id member:mem decoration:E:Decoration
112 OpConvertUToF result_type:id result_id:rid unsigned_value:id
124 OpBitcast result_type:id result_id:rid operand:id
245 OpPhi result_type:id result_id:rid variables:*phi
246 OpLoopMerge merge_block:id continue_target:id loop_control:M:LoopControl
247 OpSelectionMerge merge_block:id selection_control:M:SelectionControl
248 OpLabel result_id:rid
249 OpBranch target_label:id
250 OpBranchConditional condition:id true_label:id false_label:id weights:?weights
253 OpReturn
'''
for _n, _o in ((128, 'IAdd'), (129, 'FAdd'), (130, 'ISub'), (131, 'FSub'), (132, 'IMul'), (133, 'FMul'),
               (134, 'UDiv'), (135, 'SDiv'), (136, 'FDiv'), (137, 'UMod'), (138, 'SRem'), (139, 'SMod'),
               (140, 'FRem'), (141, 'FMod'), (149, 'IAddCarry'), (150, 'ISubBorrow'), (151, 'UMulExtended'),
               (152, 'SMulExtended'), (170, 'IEqual'), (171, 'INotEqual'), (172, 'UGreaterThan'),
               (173, 'SGreaterThan'), (174, 'UGreaterThanEqual'), (175, 'SGreaterThanEqual'),
               (176, 'ULessThan'), (177, 'SLessThan'), (178, 'ULessThanEqual'), (179, 'SLessThanEqual'),
               (180, 'FOrdEqual'), (181, 'FUnordEqual'), (182, 'FOrdNotEqual'), (183, 'FUnordNotEqual'),
               (184, 'FOrdLessThan'), (185, 'FUnordLessThan'), (186, 'FOrdGreaterThan'),
               (187, 'FUnordGreaterThan'), (188, 'FOrdLessThanEqual'), (189, 'FUnordLessThanEqual'),
               (190, 'FOrdGreaterThanEqual'), (191, 'FUnordGreaterThanEqual'), (197, 'BitwiseOr'),
               (198, 'BitwiseXor'), (199, 'BitwiseAnd')):
    _OPS += '%d Op%s %s\n' % (_n, _o, _S2)

OPS = {}        # opcode -> (name, [(field, kind)], readable)
BYNAME = {}
for _l in _OPS.split('\n'):
    _p = _l.split()
    if not _p:
        continue
    _f = [tuple(x.split(':', 1)) for x in _p[2:]]
    _nm = _p[1].rstrip('!')
    OPS[int(_p[0])] = (_nm, _f, not _p[1].endswith('!'))
    BYNAME[_nm] = int(_p[0])

# the rest of the SPIR-V 1.0 opcodes
STD = {8: 'OpLine', 34: 'OpTypeEvent', 35: 'OpTypeDeviceEvent', 36: 'OpTypeReserveId', 37: 'OpTypeQueue',
       38: 'OpTypePipe', 39: 'OpTypeForwardPointer'}
def _run(first, names):
    for i, n in enumerate(names.split()):
        if n != '-':
            STD[first + i] = 'Op' + n
_run(41, 'ConstantTrue ConstantFalse Constant ConstantComposite ConstantSampler ConstantNull - SpecConstantTrue SpecConstantFalse SpecConstant SpecConstantComposite SpecConstantOp')
_run(57, 'FunctionCall - - ImageTexelPointer - - CopyMemory CopyMemorySized - InBoundsAccessChain PtrAccessChain ArrayLength GenericPtrMemSemantics InBoundsPtrAccessChain')
_run(73, 'DecorationGroup GroupDecorate GroupMemberDecorate')
_run(77, 'VectorExtractDynamic VectorInsertDynamic VectorShuffle CompositeConstruct CompositeExtract CompositeInsert CopyObject Transpose')
_run(86, 'SampledImage ImageSampleImplicitLod ImageSampleExplicitLod ImageSampleDrefImplicitLod ImageSampleDrefExplicitLod ImageSampleProjImplicitLod ImageSampleProjExplicitLod ImageSampleProjDrefImplicitLod ImageSampleProjDrefExplicitLod ImageFetch ImageGather ImageDrefGather ImageRead ImageWrite Image ImageQueryFormat ImageQueryOrder ImageQuerySizeLod ImageQuerySize ImageQueryLod ImageQueryLevels ImageQuerySamples')
_run(109, 'ConvertFToU ConvertFToS ConvertSToF - UConvert SConvert FConvert QuantizeToF16 ConvertPtrToU SatConvertSToU SatConvertUToS ConvertUToPtr PtrCastToGeneric GenericCastToPtr GenericCastToPtrExplicit')
_run(126, 'SNegate FNegate')
_run(142, 'VectorTimesScalar MatrixTimesScalar VectorTimesMatrix MatrixTimesVector MatrixTimesMatrix OuterProduct Dot')
_run(154, 'Any All IsNan IsInf IsFinite IsNormal SignBitSet LessOrGreater Ordered Unordered LogicalEqual LogicalNotEqual LogicalOr LogicalAnd LogicalNot Select')
_run(194, 'ShiftRightLogical ShiftRightArithmetic ShiftLeftLogical')
_run(200, 'Not BitFieldInsert BitFieldSExtract BitFieldUExtract BitReverse BitCount')
_run(207, 'DPdx DPdy Fwidth DPdxFine DPdyFine FwidthFine DPdxCoarse DPdyCoarse FwidthCoarse')
_run(218, 'EmitVertex EndPrimitive EmitStreamVertex EndStreamPrimitive')
_run(224, 'ControlBarrier MemoryBarrier')
_run(227, 'AtomicLoad AtomicStore AtomicExchange AtomicCompareExchange AtomicCompareExchangeWeak AtomicIIncrement AtomicIDecrement AtomicIAdd AtomicISub AtomicSMin AtomicUMin AtomicSMax AtomicUMax AtomicAnd AtomicOr AtomicXor')
_run(251, 'Switch Kill')
_run(254, 'ReturnValue Unreachable LifetimeStart LifetimeStop')
_run(259, 'GroupAsyncCopy GroupWaitEvents GroupAll GroupAny GroupBroadcast GroupIAdd GroupFAdd GroupFMin GroupUMin GroupSMin GroupFMax GroupUMax GroupSMax')
_run(274, 'ReadPipe WritePipe ReservedReadPipe ReservedWritePipe ReserveReadPipePackets ReserveWritePipePackets CommitReadPipe CommitWritePipe IsValidReserveId GetNumPipePackets GetMaxPipePackets GroupReserveReadPipePackets GroupReserveWritePipePackets GroupCommitReadPipe GroupCommitWritePipe')
_run(291, 'EnqueueMarker EnqueueKernel GetKernelNDrangeSubGroupCount GetKernelNDrangeMaxSubGroupSize GetKernelWorkGroupSize GetKernelPreferredWorkGroupSizeMultiple RetainEvent ReleaseEvent CreateUserEvent IsValidEvent SetUserEventStatus CaptureEventProfilingInfo GetDefaultQueue BuildNDRange ImageSparseSampleImplicitLod ImageSparseSampleExplicitLod ImageSparseSampleDrefImplicitLod ImageSparseSampleDrefExplicitLod ImageSparseSampleProjImplicitLod ImageSparseSampleProjExplicitLod ImageSparseSampleProjDrefImplicitLod ImageSparseSampleProjDrefExplicitLod ImageSparseFetch ImageSparseGather ImageSparseDrefGather ImageSparseTexelsResident NoLine AtomicFlagTestAndSet AtomicFlagClear ImageSparseRead')
UNIMPL = {k: v for k, v in STD.items() if k not in OPS or not OPS[k][2]}

# instructions the library can print but does not read
_R = 'result_type:id result_id:rid '
_PRINT = '''
OpLine file:id line:lit column:lit
OpNoLine
OpTypeReserveId result_id:rid
OpConstantTrue R
OpConstantFalse R
OpConstantNull R
OpConstantSampler R addressing_mode:E:SamplerAddressingMode param:E:SamplerParam filter_mode:E:SamplerFilterMode
OpSpecConstantTrue R
OpSpecConstantFalse R
OpSpecConstant R value:*lit
OpSpecConstantComposite R constituents:*id
OpFunctionCall R function:id arguments:*id
OpImageTexelPointer R image:id coordinate:id sample:id
OpCopyMemory target:id source:id memory_access:?M:MemoryAccess
OpCopyMemorySized target:id source:id size:id memory_access:?M:MemoryAccess
OpInBoundsAccessChain R base:id indexes:*id
OpPtrAccessChain R base:id element:id indexes:*id
OpInBoundsPtrAccessChain R base:id element:id indexes:*id
OpArrayLength R structure:id array_member:mem
OpGenericPtrMemSemantics R pointer:id
OpDecorationGroup result_id:rid
OpGroupDecorate decoration_group:id targets:*id
OpVectorExtractDynamic R vector:id index:id
OpVectorInsertDynamic R vector:id component:id index:id
OpVectorShuffle R operand1:id operand2:id components:*mem
OpCompositeConstruct R constituents:*id
OpCompositeExtract R composite:id indexes:*mem
OpCompositeInsert R object:id composite:id indexes:*mem
OpCopyObject R operand:id
OpTranspose R matrix:id
OpSampledImage R image:id sampler:id
OpConvertFToU R float_value:id
OpConvertFToS R float_value:id
OpConvertSToF R signed_value:id
OpUConvert R unsigned_value:id
OpSConvert R signed_value:id
OpFConvert R float_value:id
OpQuantizeToF16 R value:id
OpConvertPtrToU R pointer:id
OpSatConvertSToU R signed_value:id
OpSatConvertUToS R unsigned_value:id
OpConvertUToPtr R integer_value:id
OpPtrCastToGeneric R pointer:id
OpGenericCastToPtr R pointer:id
OpGenericCastToPtrExplicit R pointer:id storage_class:E:StorageClass
OpSNegate R operand:id
OpFNegate R operand:id
OpNot R operand:id
OpVectorTimesScalar R vector:id scalar:id
OpMatrixTimesScalar R matrix:id scalar:id
OpVectorTimesMatrix R vector:id matrix:id
OpMatrixTimesVector R matrix:id vector:id
OpMatrixTimesMatrix R left_matrix:id right_matrix:id
OpOuterProduct R vector1:id vector2:id
OpDot R vector1:id vector2:id
OpShiftRightLogical R base:id shift:id
OpShiftRightArithmetic R base:id shift:id
OpShiftLeftLogical R base:id shift:id
'''
PRINT_OPS = {}
for _l in _PRINT.split('\n'):
    _p = _l.replace(' R', ' ' + _R).split()
    if _p:
        PRINT_OPS[_p[0]] = [tuple(x.split(':', 1)) for x in _p[1:]]

# enumerants: number, library variant, printed name, parameter kinds
def _en(text, first=0):
    out = []
    n = first
    for w in text.split():
        if w.startswith('@'):
            n = int(w[1:])
            continue
        w, _, ps = w.partition('(')
        v, _, d = w.partition('=')
        out.append((n, v, d or v, [p for p in ps.rstrip(')').split(',') if p]))
        n += 1
    return out

ENUMS = {
    'SourceLanguage': _en('Unknown Essl=ESSL Glsl=GLSL OpenCL_C OpenCL_Cpp=OpenCL_CPP'),
    'AddressingModel': _en('Logical Physical32 Physical64'),
    'MemoryModel': _en('Simple Glsl450=GLSL450 OpenCL'),
    'ExecutionModel': _en('Vertex TesselationControl=TessellationControl TesselationEvaluation=TessellationEvaluation Geometry Fragment GlCompute=GLCompute Kernel'),
    'ExecutionMode': _en('Invocations(lit) SpacingEqual SpacingFractionalEven SpacingFractionalOdd VertexOrderCw VertexOrderCcw PixelCenterInteger OriginUpperLeft OriginLowerLeft EarlyFragmentTests PointMode Xfb DepthReplacing @14 DepthGreater DepthLess DepthUnchanged LocalSize(lit,lit,lit) LocalSizeHint(lit,lit,lit) InputPoints InputLines InputLinesAdjacency Triangles InputTrianglesAdjacency Quads Isolines OutputVerticies=OutputVertices(lit) OutputPoints OutputLineStrip OutputTriangleStrip VecTypeHint(id) ContractionOff'),
    'Capability': _en('Matrix Shader Geometry Tessellation Addresses Linkage Kernel Vector16 Float16Buffer Float16 Float64 Int64 Int64Atomics ImageBasic ImageReadWrite ImageMipmap @17 Pipes Groups DeviceEnqueue LiteralSampler AtomicStorage Int16 TessellationPointSize GeometryPointSize ImageGatherExtended @27 StorageImageMultisample UniformBufferArrayDynamicIndexing SampledImageArrayDynamicIndexing StorageBufferArrayDynamicIndexing StorageImageArrayDynamicIndexing ClipDistance CullDistance ImageCubeArray SampleRateShading ImageRect SampledRect GenericPointer Int8 InputAttachment SparseResidency MinLod Sampled1D Image1D SampledCubeArray SampledBuffer ImageBuffer ImageMSArray StorageImageExtendedFormats ImageQuery DerivativeControl InterpolationFunction TransformFeedback GeometryStreams StorageImageReadWithoutFormat StorageImageWriteWithoutFormat MultiViewport'),
    'Signedness': _en('UnsignedOrNone=0 Signed=1'),
    'StorageClass': _en('UniformConstant Input Uniform Output Workgroup CrossWorkgroup Private Function Generic PushConstant AtomicCounter Image'),
    'Decoration': _en('RelaxedPrecision SpecId(lit) Block BufferBlock RowMajor ColMajor ArrayStride(lit) MatrixStride(lit) GlslShared=GLSLShared GlslPacked=GLSLPacked CPacked BuiltIn(E:BuiltIn) @13 NoPerspective Flat Patch Centroid Sample Invariant Restrict Aliased Volatile Constant Coherent NonWritable NonReadable Uniform @28 SaturatedConversion Stream(lit) Location(lit) Component(lit) Index(lit) Binding(lit) DescriptorSet(lit) Offset(lit) XfbBuffer(lit) XfbStride(lit) FuncParamAttr(E:FunctionParameterAttribute) FpRoundingMode=FPRoundingMode(E:FpRoundingMode) FpFastMathMode=FPFastMathMode(M:FpFastMathMode) LinkageAttributes(str,E:LinkageType) NoContraction InputAttachmentIndex(lit) Alignment(lit)'),
    'BuiltIn': _en('Position PointSize @3 ClipDistance CullDistance VertexId InstanceId PrimitiveId InvocationId Layer ViewportIndex TessLevelOuter TessLevelInner TessCoord PatchVerticies=PatchVertices FragCoord PointCoord FrontFacing SampleId SamplePosition SampleMask @22 FragDepth HelperInvocation NumWorkgroups WorkgroupSize WorkgroupId LocalInvocationId GlobalInvocationId LocalInvocationIndex WorkDim GlobalSize EnqueuedWorkgroupSize GlobalOffset GlobalLinearId @36 SubgroupSize SubgroupMaxSize NumSubgroups NumEnqueuedSubgroups SubgroupId SubgroupLocalInvocationId VertexIndex InstanceIndex'),
    'FpRoundingMode': _en('Rte=RTE Rtz=RTZ Rtp=RTP Rtn=RTN'),
    'LinkageType': _en('Export Import'),
    'FunctionParameterAttribute': _en('Zext Sext ByVal Sret NoAlias NoCapture NoWrite NoReadWrite'),
    'Dim': _en('Tex1D=1D Tex2D=2D Tex3D=3D Cube Rect Buffer SubpassData'),
    'DepthStatus': _en('NotDepth=0 Depth=1 NoIndication=2'),
    'Arrayed': _en('False=0 True=1'),
    'MS': _en('Single=0 Multi=1'),
    'SampledStatus': _en('RuntimeChoice=0 WithSampler=1 WithoutSampler=2'),
    'ImageFormat': _en('Unknown Rgba32f Rgba16f R32f Rgba8 Rgba8Snorm Rg32f Rg16f R11fG11fB10f R16f Rgba16 Rgb10A2 Rg16 Rg8 R16 R8 Rgba16Snorm Rg16Snorm Rg8Snorm R16Snorm R8Snorm Rgba32i Rgba16i Rgba8i R32i Rg32i Rg16i Rg8i R16i R8i Rgba32ui Rgba16ui Rgba8ui R32ui Rgb10a2ui Rg32ui Rg16ui Rg8ui R16ui R8ui'),
    'AccessQualifier': _en('ReadOnly WriteOnly ReadWrite'),
}
# not read from modules but printable
PRINT_ONLY = {
    'SamplerAddressingMode': _en('None ClampToEdge Clamp Repeat RepeatMirrored'),
    'SamplerParam': _en('NonNormalized=0 Normalized=1'),
    'SamplerFilterMode': _en('Nearest Linear'),
}
OPEN = {'SourceLanguage': ('Other', 'Unknown(%s)')}

# masks: (bit, field, printed, parameter)
MASKS = {
    'FpFastMathMode': [(0, 'not_nan', 'NotNaN', 0), (1, 'not_inf', 'NotInf', 0), (2, 'nsz', 'NSZ', 0), (3, 'allow_recip', 'AllowRecip', 0), (4, 'fast', 'Fast', 0)],
    'MemoryAccess': [(0, 'volatile', 'Volatile', 0), (1, 'aligned', 'Aligned', 1), (2, 'non_temporal', 'Nontemporal', 0)],
    'FunctionControl': [(0, 'inline', 'Inline', 0), (1, 'dont_inline', 'DontInline', 0), (2, 'pure_function', 'Pure', 0), (3, 'const_function', 'Const', 0)],
    'LoopControl': [(0, 'unroll', 'Unroll', 0), (1, 'dont_unroll', 'DontUnroll', 0), (2, 'dependency_infinite', 'DependencyInfinite', 0), (3, 'dependency_length', 'DependencyLength', 1)],
    'SelectionControl': [(0, 'flatten', 'Flatten', 0), (1, 'dont_flatten', 'DontFlatten', 0)],
}

# registered generators (SPIR-V XML registry of that time): id, variant, printed vendor and tool
TOOLS = ['KhronosReserved', 'LunarG', 'Valve', 'Codeplay', 'Nvidia', 'Arm', 'KhronosLLvmTranslator',
         'KhronosAssembler', 'KhronosGlslang', 'Qualcomm', 'Amd', 'Intel']

MAGIC = 0x07230203
