E(0, spv::ImageOperandsMask::MaskNone, "None")
E(0, spv::ImageOperandsMask::Bias, "Bias")
E(0, spv::ImageOperandsMask::Lod, "Lod")
E(0, spv::ImageOperandsMask::Grad, "Grad")
E(0, spv::ImageOperandsMask::ConstOffset, "ConstOffset")
E(0, spv::ImageOperandsMask::Offset, "Offset")
E(0, spv::ImageOperandsMask::ConstOffsets, "ConstOffsets")
E(0, spv::ImageOperandsMask::Sample, "Sample")
E(0, spv::ImageOperandsMask::MinLod, "MinLod")
E(0, spv::ImageOperandsMask::MakeTexelAvailable, "MakeTexelAvailable")
E(0, spv::ImageOperandsMask::MakeTexelVisible, "MakeTexelVisible")
E(0, spv::ImageOperandsMask::NonPrivateTexel, "NonPrivateTexel")
E(0, spv::ImageOperandsMask::VolatileTexel, "VolatileTexel")
E(0, spv::ImageOperandsMask::SignExtend, "SignExtend")
E(0, spv::ImageOperandsMask::ZeroExtend, "ZeroExtend")
E(0, spv::ImageOperandsMask::Nontemporal, "Nontemporal")
E(0, spv::ImageOperandsMask::Offsets, "Offsets")
E(1, spv::FPFastMathModeMask::MaskNone, "None")
E(1, spv::FPFastMathModeMask::NotNaN, "NotNaN")
E(1, spv::FPFastMathModeMask::NotInf, "NotInf")
E(1, spv::FPFastMathModeMask::NSZ, "NSZ")
E(1, spv::FPFastMathModeMask::AllowRecip, "AllowRecip")
E(1, spv::FPFastMathModeMask::Fast, "Fast")
E(1, spv::FPFastMathModeMask::AllowContractFastINTEL, "AllowContractFastINTEL")
E(1, spv::FPFastMathModeMask::AllowReassocINTEL, "AllowReassocINTEL")
E(2, spv::SelectionControlMask::MaskNone, "None")
E(2, spv::SelectionControlMask::Flatten, "Flatten")
E(2, spv::SelectionControlMask::DontFlatten, "DontFlatten")
E(3, spv::LoopControlMask::MaskNone, "None")
E(3, spv::LoopControlMask::Unroll, "Unroll")
E(3, spv::LoopControlMask::DontUnroll, "DontUnroll")
E(3, spv::LoopControlMask::DependencyInfinite, "DependencyInfinite")
E(3, spv::LoopControlMask::DependencyLength, "DependencyLength")
E(3, spv::LoopControlMask::MinIterations, "MinIterations")
E(3, spv::LoopControlMask::MaxIterations, "MaxIterations")
E(3, spv::LoopControlMask::IterationMultiple, "IterationMultiple")
E(3, spv::LoopControlMask::PeelCount, "PeelCount")
E(3, spv::LoopControlMask::PartialCount, "PartialCount")
E(3, spv::LoopControlMask::InitiationIntervalINTEL, "InitiationIntervalINTEL")
E(3, spv::LoopControlMask::MaxConcurrencyINTEL, "MaxConcurrencyINTEL")
E(3, spv::LoopControlMask::DependencyArrayINTEL, "DependencyArrayINTEL")
E(3, spv::LoopControlMask::PipelineEnableINTEL, "PipelineEnableINTEL")
E(3, spv::LoopControlMask::LoopCoalesceINTEL, "LoopCoalesceINTEL")
E(3, spv::LoopControlMask::MaxInterleavingINTEL, "MaxInterleavingINTEL")
E(3, spv::LoopControlMask::SpeculatedIterationsINTEL, "SpeculatedIterationsINTEL")
E(3, spv::LoopControlMask::NoFusionINTEL, "NoFusionINTEL")
E(3, spv::LoopControlMask::LoopCountINTEL, "LoopCountINTEL")
E(3, spv::LoopControlMask::MaxReinvocationDelayINTEL, "MaxReinvocationDelayINTEL")
E(4, spv::FunctionControlMask::MaskNone, "None")
E(4, spv::FunctionControlMask::Inline, "Inline")
E(4, spv::FunctionControlMask::DontInline, "DontInline")
E(4, spv::FunctionControlMask::Pure, "Pure")
E(4, spv::FunctionControlMask::Const, "Const")
E(4, spv::FunctionControlMask::OptNoneINTEL, "OptNoneINTEL")
E(5, spv::MemorySemanticsMask::Relaxed, "Relaxed")
E(5, spv::MemorySemanticsMask::Acquire, "Acquire")
E(5, spv::MemorySemanticsMask::Release, "Release")
E(5, spv::MemorySemanticsMask::AcquireRelease, "AcquireRelease")
E(5, spv::MemorySemanticsMask::SequentiallyConsistent, "SequentiallyConsistent")
E(5, spv::MemorySemanticsMask::UniformMemory, "UniformMemory")
E(5, spv::MemorySemanticsMask::SubgroupMemory, "SubgroupMemory")
E(5, spv::MemorySemanticsMask::WorkgroupMemory, "WorkgroupMemory")
E(5, spv::MemorySemanticsMask::CrossWorkgroupMemory, "CrossWorkgroupMemory")
E(5, spv::MemorySemanticsMask::AtomicCounterMemory, "AtomicCounterMemory")
E(5, spv::MemorySemanticsMask::ImageMemory, "ImageMemory")
E(5, spv::MemorySemanticsMask::OutputMemory, "OutputMemory")
E(5, spv::MemorySemanticsMask::MakeAvailable, "MakeAvailable")
E(5, spv::MemorySemanticsMask::MakeVisible, "MakeVisible")
E(5, spv::MemorySemanticsMask::Volatile, "Volatile")
E(6, spv::MemoryAccessMask::MaskNone, "None")
E(6, spv::MemoryAccessMask::Volatile, "Volatile")
E(6, spv::MemoryAccessMask::Aligned, "Aligned")
E(6, spv::MemoryAccessMask::Nontemporal, "Nontemporal")
E(6, spv::MemoryAccessMask::MakePointerAvailable, "MakePointerAvailable")
E(6, spv::MemoryAccessMask::MakePointerVisible, "MakePointerVisible")
E(6, spv::MemoryAccessMask::NonPrivatePointer, "NonPrivatePointer")
E(6, spv::MemoryAccessMask::AliasScopeINTELMask, "AliasScopeINTELMask")
E(6, spv::MemoryAccessMask::NoAliasINTELMask, "NoAliasINTELMask")
E(7, spv::KernelProfilingInfoMask::MaskNone, "None")
E(7, spv::KernelProfilingInfoMask::CmdExecTime, "CmdExecTime")
E(8, spv::RayFlagsMask::NoneKHR, "NoneKHR")
E(8, spv::RayFlagsMask::OpaqueKHR, "OpaqueKHR")
E(8, spv::RayFlagsMask::NoOpaqueKHR, "NoOpaqueKHR")
E(8, spv::RayFlagsMask::TerminateOnFirstHitKHR, "TerminateOnFirstHitKHR")
E(8, spv::RayFlagsMask::SkipClosestHitShaderKHR, "SkipClosestHitShaderKHR")
E(8, spv::RayFlagsMask::CullBackFacingTrianglesKHR, "CullBackFacingTrianglesKHR")
E(8, spv::RayFlagsMask::CullFrontFacingTrianglesKHR, "CullFrontFacingTrianglesKHR")
E(8, spv::RayFlagsMask::CullOpaqueKHR, "CullOpaqueKHR")
E(8, spv::RayFlagsMask::CullNoOpaqueKHR, "CullNoOpaqueKHR")
E(8, spv::RayFlagsMask::SkipTrianglesKHR, "SkipTrianglesKHR")
E(8, spv::RayFlagsMask::SkipAABBsKHR, "SkipAABBsKHR")
E(8, spv::RayFlagsMask::ForceOpacityMicromap2StateEXT, "ForceOpacityMicromap2StateEXT")
E(9, spv::FragmentShadingRateMask::Vertical2Pixels, "Vertical2Pixels")
E(9, spv::FragmentShadingRateMask::Vertical4Pixels, "Vertical4Pixels")
E(9, spv::FragmentShadingRateMask::Horizontal2Pixels, "Horizontal2Pixels")
E(9, spv::FragmentShadingRateMask::Horizontal4Pixels, "Horizontal4Pixels")
E(10, spv::SourceLanguage::Unknown, "Unknown")
E(10, spv::SourceLanguage::ESSL, "ESSL")
E(10, spv::SourceLanguage::GLSL, "GLSL")
E(10, spv::SourceLanguage::OpenCL_C, "OpenCL_C")
E(10, spv::SourceLanguage::OpenCL_CPP, "OpenCL_CPP")
E(10, spv::SourceLanguage::HLSL, "HLSL")
E(10, spv::SourceLanguage::CPP_for_OpenCL, "CPP_for_OpenCL")
E(10, spv::SourceLanguage::SYCL, "SYCL")
E(10, spv::SourceLanguage::HERO_C, "HERO_C")
E(10, spv::SourceLanguage::NZSL, "NZSL")
E(10, spv::SourceLanguage::WGSL, "WGSL")
E(11, spv::ExecutionModel::Vertex, "Vertex")
E(11, spv::ExecutionModel::TessellationControl, "TessellationControl")
E(11, spv::ExecutionModel::TessellationEvaluation, "TessellationEvaluation")
E(11, spv::ExecutionModel::Geometry, "Geometry")
E(11, spv::ExecutionModel::Fragment, "Fragment")
E(11, spv::ExecutionModel::GLCompute, "GLCompute")
E(11, spv::ExecutionModel::Kernel, "Kernel")
E(11, spv::ExecutionModel::TaskNV, "TaskNV")
E(11, spv::ExecutionModel::MeshNV, "MeshNV")
E(11, spv::ExecutionModel::RayGenerationNV, "RayGenerationNV")
E(11, spv::ExecutionModel::IntersectionNV, "IntersectionNV")
E(11, spv::ExecutionModel::AnyHitNV, "AnyHitNV")
E(11, spv::ExecutionModel::ClosestHitNV, "ClosestHitNV")
E(11, spv::ExecutionModel::MissNV, "MissNV")
E(11, spv::ExecutionModel::CallableNV, "CallableNV")
E(11, spv::ExecutionModel::TaskEXT, "TaskEXT")
E(11, spv::ExecutionModel::MeshEXT, "MeshEXT")
E(12, spv::AddressingModel::Logical, "Logical")
E(12, spv::AddressingModel::Physical32, "Physical32")
E(12, spv::AddressingModel::Physical64, "Physical64")
E(12, spv::AddressingModel::PhysicalStorageBuffer64, "PhysicalStorageBuffer64")
E(13, spv::MemoryModel::Simple, "Simple")
E(13, spv::MemoryModel::GLSL450, "GLSL450")
E(13, spv::MemoryModel::OpenCL, "OpenCL")
E(13, spv::MemoryModel::Vulkan, "Vulkan")
E(14, spv::ExecutionMode::Invocations, "Invocations")
E(14, spv::ExecutionMode::SpacingEqual, "SpacingEqual")
E(14, spv::ExecutionMode::SpacingFractionalEven, "SpacingFractionalEven")
E(14, spv::ExecutionMode::SpacingFractionalOdd, "SpacingFractionalOdd")
E(14, spv::ExecutionMode::VertexOrderCw, "VertexOrderCw")
E(14, spv::ExecutionMode::VertexOrderCcw, "VertexOrderCcw")
E(14, spv::ExecutionMode::PixelCenterInteger, "PixelCenterInteger")
E(14, spv::ExecutionMode::OriginUpperLeft, "OriginUpperLeft")
E(14, spv::ExecutionMode::OriginLowerLeft, "OriginLowerLeft")
E(14, spv::ExecutionMode::EarlyFragmentTests, "EarlyFragmentTests")
E(14, spv::ExecutionMode::PointMode, "PointMode")
E(14, spv::ExecutionMode::Xfb, "Xfb")
E(14, spv::ExecutionMode::DepthReplacing, "DepthReplacing")
E(14, spv::ExecutionMode::DepthGreater, "DepthGreater")
E(14, spv::ExecutionMode::DepthLess, "DepthLess")
E(14, spv::ExecutionMode::DepthUnchanged, "DepthUnchanged")
E(14, spv::ExecutionMode::LocalSize, "LocalSize")
E(14, spv::ExecutionMode::LocalSizeHint, "LocalSizeHint")
E(14, spv::ExecutionMode::InputPoints, "InputPoints")
E(14, spv::ExecutionMode::InputLines, "InputLines")
E(14, spv::ExecutionMode::InputLinesAdjacency, "InputLinesAdjacency")
E(14, spv::ExecutionMode::Triangles, "Triangles")
E(14, spv::ExecutionMode::InputTrianglesAdjacency, "InputTrianglesAdjacency")
E(14, spv::ExecutionMode::Quads, "Quads")
E(14, spv::ExecutionMode::Isolines, "Isolines")
E(14, spv::ExecutionMode::OutputVertices, "OutputVertices")
E(14, spv::ExecutionMode::OutputPoints, "OutputPoints")
E(14, spv::ExecutionMode::OutputLineStrip, "OutputLineStrip")
E(14, spv::ExecutionMode::OutputTriangleStrip, "OutputTriangleStrip")
E(14, spv::ExecutionMode::VecTypeHint, "VecTypeHint")
E(14, spv::ExecutionMode::ContractionOff, "ContractionOff")
E(14, spv::ExecutionMode::Initializer, "Initializer")
E(14, spv::ExecutionMode::Finalizer, "Finalizer")
E(14, spv::ExecutionMode::SubgroupSize, "SubgroupSize")
E(14, spv::ExecutionMode::SubgroupsPerWorkgroup, "SubgroupsPerWorkgroup")
E(14, spv::ExecutionMode::SubgroupsPerWorkgroupId, "SubgroupsPerWorkgroupId")
E(14, spv::ExecutionMode::LocalSizeId, "LocalSizeId")
E(14, spv::ExecutionMode::LocalSizeHintId, "LocalSizeHintId")
E(14, spv::ExecutionMode::NonCoherentColorAttachmentReadEXT, "NonCoherentColorAttachmentReadEXT")
E(14, spv::ExecutionMode::NonCoherentDepthAttachmentReadEXT, "NonCoherentDepthAttachmentReadEXT")
E(14, spv::ExecutionMode::NonCoherentStencilAttachmentReadEXT, "NonCoherentStencilAttachmentReadEXT")
E(14, spv::ExecutionMode::SubgroupUniformControlFlowKHR, "SubgroupUniformControlFlowKHR")
E(14, spv::ExecutionMode::PostDepthCoverage, "PostDepthCoverage")
E(14, spv::ExecutionMode::DenormPreserve, "DenormPreserve")
E(14, spv::ExecutionMode::DenormFlushToZero, "DenormFlushToZero")
E(14, spv::ExecutionMode::SignedZeroInfNanPreserve, "SignedZeroInfNanPreserve")
E(14, spv::ExecutionMode::RoundingModeRTE, "RoundingModeRTE")
E(14, spv::ExecutionMode::RoundingModeRTZ, "RoundingModeRTZ")
E(14, spv::ExecutionMode::EarlyAndLateFragmentTestsAMD, "EarlyAndLateFragmentTestsAMD")
E(14, spv::ExecutionMode::StencilRefReplacingEXT, "StencilRefReplacingEXT")
E(14, spv::ExecutionMode::CoalescingAMDX, "CoalescingAMDX")
E(14, spv::ExecutionMode::MaxNodeRecursionAMDX, "MaxNodeRecursionAMDX")
E(14, spv::ExecutionMode::StaticNumWorkgroupsAMDX, "StaticNumWorkgroupsAMDX")
E(14, spv::ExecutionMode::ShaderIndexAMDX, "ShaderIndexAMDX")
E(14, spv::ExecutionMode::MaxNumWorkgroupsAMDX, "MaxNumWorkgroupsAMDX")
E(14, spv::ExecutionMode::StencilRefUnchangedFrontAMD, "StencilRefUnchangedFrontAMD")
E(14, spv::ExecutionMode::StencilRefGreaterFrontAMD, "StencilRefGreaterFrontAMD")
E(14, spv::ExecutionMode::StencilRefLessFrontAMD, "StencilRefLessFrontAMD")
E(14, spv::ExecutionMode::StencilRefUnchangedBackAMD, "StencilRefUnchangedBackAMD")
E(14, spv::ExecutionMode::StencilRefGreaterBackAMD, "StencilRefGreaterBackAMD")
E(14, spv::ExecutionMode::StencilRefLessBackAMD, "StencilRefLessBackAMD")
E(14, spv::ExecutionMode::OutputLinesNV, "OutputLinesNV")
E(14, spv::ExecutionMode::OutputPrimitivesNV, "OutputPrimitivesNV")
E(14, spv::ExecutionMode::DerivativeGroupQuadsNV, "DerivativeGroupQuadsNV")
E(14, spv::ExecutionMode::DerivativeGroupLinearNV, "DerivativeGroupLinearNV")
E(14, spv::ExecutionMode::OutputTrianglesNV, "OutputTrianglesNV")
E(14, spv::ExecutionMode::PixelInterlockOrderedEXT, "PixelInterlockOrderedEXT")
E(14, spv::ExecutionMode::PixelInterlockUnorderedEXT, "PixelInterlockUnorderedEXT")
E(14, spv::ExecutionMode::SampleInterlockOrderedEXT, "SampleInterlockOrderedEXT")
E(14, spv::ExecutionMode::SampleInterlockUnorderedEXT, "SampleInterlockUnorderedEXT")
E(14, spv::ExecutionMode::ShadingRateInterlockOrderedEXT, "ShadingRateInterlockOrderedEXT")
E(14, spv::ExecutionMode::ShadingRateInterlockUnorderedEXT, "ShadingRateInterlockUnorderedEXT")
E(14, spv::ExecutionMode::SharedLocalMemorySizeINTEL, "SharedLocalMemorySizeINTEL")
E(14, spv::ExecutionMode::RoundingModeRTPINTEL, "RoundingModeRTPINTEL")
E(14, spv::ExecutionMode::RoundingModeRTNINTEL, "RoundingModeRTNINTEL")
E(14, spv::ExecutionMode::FloatingPointModeALTINTEL, "FloatingPointModeALTINTEL")
E(14, spv::ExecutionMode::FloatingPointModeIEEEINTEL, "FloatingPointModeIEEEINTEL")
E(14, spv::ExecutionMode::MaxWorkgroupSizeINTEL, "MaxWorkgroupSizeINTEL")
E(14, spv::ExecutionMode::MaxWorkDimINTEL, "MaxWorkDimINTEL")
E(14, spv::ExecutionMode::NoGlobalOffsetINTEL, "NoGlobalOffsetINTEL")
E(14, spv::ExecutionMode::NumSIMDWorkitemsINTEL, "NumSIMDWorkitemsINTEL")
E(14, spv::ExecutionMode::SchedulerTargetFmaxMhzINTEL, "SchedulerTargetFmaxMhzINTEL")
E(14, spv::ExecutionMode::StreamingInterfaceINTEL, "StreamingInterfaceINTEL")
E(14, spv::ExecutionMode::RegisterMapInterfaceINTEL, "RegisterMapInterfaceINTEL")
E(14, spv::ExecutionMode::NamedBarrierCountINTEL, "NamedBarrierCountINTEL")
E(15, spv::StorageClass::UniformConstant, "UniformConstant")
E(15, spv::StorageClass::Input, "Input")
E(15, spv::StorageClass::Uniform, "Uniform")
E(15, spv::StorageClass::Output, "Output")
E(15, spv::StorageClass::Workgroup, "Workgroup")
E(15, spv::StorageClass::CrossWorkgroup, "CrossWorkgroup")
E(15, spv::StorageClass::Private, "Private")
E(15, spv::StorageClass::Function, "Function")
E(15, spv::StorageClass::Generic, "Generic")
E(15, spv::StorageClass::PushConstant, "PushConstant")
E(15, spv::StorageClass::AtomicCounter, "AtomicCounter")
E(15, spv::StorageClass::Image, "Image")
E(15, spv::StorageClass::StorageBuffer, "StorageBuffer")
E(15, spv::StorageClass::TileImageEXT, "TileImageEXT")
E(15, spv::StorageClass::NodePayloadAMDX, "NodePayloadAMDX")
E(15, spv::StorageClass::NodeOutputPayloadAMDX, "NodeOutputPayloadAMDX")
E(15, spv::StorageClass::CallableDataNV, "CallableDataNV")
E(15, spv::StorageClass::IncomingCallableDataNV, "IncomingCallableDataNV")
E(15, spv::StorageClass::RayPayloadNV, "RayPayloadNV")
E(15, spv::StorageClass::HitAttributeNV, "HitAttributeNV")
E(15, spv::StorageClass::IncomingRayPayloadNV, "IncomingRayPayloadNV")
E(15, spv::StorageClass::ShaderRecordBufferNV, "ShaderRecordBufferNV")
E(15, spv::StorageClass::PhysicalStorageBuffer, "PhysicalStorageBuffer")
E(15, spv::StorageClass::HitObjectAttributeNV, "HitObjectAttributeNV")
E(15, spv::StorageClass::TaskPayloadWorkgroupEXT, "TaskPayloadWorkgroupEXT")
E(15, spv::StorageClass::CodeSectionINTEL, "CodeSectionINTEL")
E(15, spv::StorageClass::DeviceOnlyINTEL, "DeviceOnlyINTEL")
E(15, spv::StorageClass::HostOnlyINTEL, "HostOnlyINTEL")
E(16, spv::Dim::Dim1D, "Dim1D")
E(16, spv::Dim::Dim2D, "Dim2D")
E(16, spv::Dim::Dim3D, "Dim3D")
E(16, spv::Dim::Cube, "Cube")
E(16, spv::Dim::Rect, "Rect")
E(16, spv::Dim::Buffer, "Buffer")
E(16, spv::Dim::SubpassData, "SubpassData")
E(16, spv::Dim::TileImageDataEXT, "TileImageDataEXT")
E(17, spv::SamplerAddressingMode::None, "None")
E(17, spv::SamplerAddressingMode::ClampToEdge, "ClampToEdge")
E(17, spv::SamplerAddressingMode::Clamp, "Clamp")
E(17, spv::SamplerAddressingMode::Repeat, "Repeat")
E(17, spv::SamplerAddressingMode::RepeatMirrored, "RepeatMirrored")
E(18, spv::SamplerFilterMode::Nearest, "Nearest")
E(18, spv::SamplerFilterMode::Linear, "Linear")
E(19, spv::ImageFormat::Unknown, "Unknown")
E(19, spv::ImageFormat::Rgba32f, "Rgba32f")
E(19, spv::ImageFormat::Rgba16f, "Rgba16f")
E(19, spv::ImageFormat::R32f, "R32f")
E(19, spv::ImageFormat::Rgba8, "Rgba8")
E(19, spv::ImageFormat::Rgba8Snorm, "Rgba8Snorm")
E(19, spv::ImageFormat::Rg32f, "Rg32f")
E(19, spv::ImageFormat::Rg16f, "Rg16f")
E(19, spv::ImageFormat::R11fG11fB10f, "R11fG11fB10f")
E(19, spv::ImageFormat::R16f, "R16f")
E(19, spv::ImageFormat::Rgba16, "Rgba16")
E(19, spv::ImageFormat::Rgb10A2, "Rgb10A2")
E(19, spv::ImageFormat::Rg16, "Rg16")
E(19, spv::ImageFormat::Rg8, "Rg8")
E(19, spv::ImageFormat::R16, "R16")
E(19, spv::ImageFormat::R8, "R8")
E(19, spv::ImageFormat::Rgba16Snorm, "Rgba16Snorm")
E(19, spv::ImageFormat::Rg16Snorm, "Rg16Snorm")
E(19, spv::ImageFormat::Rg8Snorm, "Rg8Snorm")
E(19, spv::ImageFormat::R16Snorm, "R16Snorm")
E(19, spv::ImageFormat::R8Snorm, "R8Snorm")
E(19, spv::ImageFormat::Rgba32i, "Rgba32i")
E(19, spv::ImageFormat::Rgba16i, "Rgba16i")
E(19, spv::ImageFormat::Rgba8i, "Rgba8i")
E(19, spv::ImageFormat::R32i, "R32i")
E(19, spv::ImageFormat::Rg32i, "Rg32i")
E(19, spv::ImageFormat::Rg16i, "Rg16i")
E(19, spv::ImageFormat::Rg8i, "Rg8i")
E(19, spv::ImageFormat::R16i, "R16i")
E(19, spv::ImageFormat::R8i, "R8i")
E(19, spv::ImageFormat::Rgba32ui, "Rgba32ui")
E(19, spv::ImageFormat::Rgba16ui, "Rgba16ui")
E(19, spv::ImageFormat::Rgba8ui, "Rgba8ui")
E(19, spv::ImageFormat::R32ui, "R32ui")
E(19, spv::ImageFormat::Rgb10a2ui, "Rgb10a2ui")
E(19, spv::ImageFormat::Rg32ui, "Rg32ui")
E(19, spv::ImageFormat::Rg16ui, "Rg16ui")
E(19, spv::ImageFormat::Rg8ui, "Rg8ui")
E(19, spv::ImageFormat::R16ui, "R16ui")
E(19, spv::ImageFormat::R8ui, "R8ui")
E(19, spv::ImageFormat::R64ui, "R64ui")
E(19, spv::ImageFormat::R64i, "R64i")
E(20, spv::ImageChannelOrder::R, "R")
E(20, spv::ImageChannelOrder::A, "A")
E(20, spv::ImageChannelOrder::RG, "RG")
E(20, spv::ImageChannelOrder::RA, "RA")
E(20, spv::ImageChannelOrder::RGB, "RGB")
E(20, spv::ImageChannelOrder::RGBA, "RGBA")
E(20, spv::ImageChannelOrder::BGRA, "BGRA")
E(20, spv::ImageChannelOrder::ARGB, "ARGB")
E(20, spv::ImageChannelOrder::Intensity, "Intensity")
E(20, spv::ImageChannelOrder::Luminance, "Luminance")
E(20, spv::ImageChannelOrder::Rx, "Rx")
E(20, spv::ImageChannelOrder::RGx, "RGx")
E(20, spv::ImageChannelOrder::RGBx, "RGBx")
E(20, spv::ImageChannelOrder::Depth, "Depth")
E(20, spv::ImageChannelOrder::DepthStencil, "DepthStencil")
E(20, spv::ImageChannelOrder::sRGB, "sRGB")
E(20, spv::ImageChannelOrder::sRGBx, "sRGBx")
E(20, spv::ImageChannelOrder::sRGBA, "sRGBA")
E(20, spv::ImageChannelOrder::sBGRA, "sBGRA")
E(20, spv::ImageChannelOrder::ABGR, "ABGR")
E(21, spv::ImageChannelDataType::SnormInt8, "SnormInt8")
E(21, spv::ImageChannelDataType::SnormInt16, "SnormInt16")
E(21, spv::ImageChannelDataType::UnormInt8, "UnormInt8")
E(21, spv::ImageChannelDataType::UnormInt16, "UnormInt16")
E(21, spv::ImageChannelDataType::UnormShort565, "UnormShort565")
E(21, spv::ImageChannelDataType::UnormShort555, "UnormShort555")
E(21, spv::ImageChannelDataType::UnormInt101010, "UnormInt101010")
E(21, spv::ImageChannelDataType::SignedInt8, "SignedInt8")
E(21, spv::ImageChannelDataType::SignedInt16, "SignedInt16")
E(21, spv::ImageChannelDataType::SignedInt32, "SignedInt32")
E(21, spv::ImageChannelDataType::UnsignedInt8, "UnsignedInt8")
E(21, spv::ImageChannelDataType::UnsignedInt16, "UnsignedInt16")
E(21, spv::ImageChannelDataType::UnsignedInt32, "UnsignedInt32")
E(21, spv::ImageChannelDataType::HalfFloat, "HalfFloat")
E(21, spv::ImageChannelDataType::Float, "Float")
E(21, spv::ImageChannelDataType::UnormInt24, "UnormInt24")
E(21, spv::ImageChannelDataType::UnormInt101010_2, "UnormInt101010_2")
E(21, spv::ImageChannelDataType::UnsignedIntRaw10EXT, "UnsignedIntRaw10EXT")
E(21, spv::ImageChannelDataType::UnsignedIntRaw12EXT, "UnsignedIntRaw12EXT")
E(22, spv::FPRoundingMode::RTE, "RTE")
E(22, spv::FPRoundingMode::RTZ, "RTZ")
E(22, spv::FPRoundingMode::RTP, "RTP")
E(22, spv::FPRoundingMode::RTN, "RTN")
E(23, spv::FPDenormMode::Preserve, "Preserve")
E(23, spv::FPDenormMode::FlushToZero, "FlushToZero")
E(24, spv::QuantizationModes::TRN, "TRN")
E(24, spv::QuantizationModes::TRN_ZERO, "TRN_ZERO")
E(24, spv::QuantizationModes::RND, "RND")
E(24, spv::QuantizationModes::RND_ZERO, "RND_ZERO")
E(24, spv::QuantizationModes::RND_INF, "RND_INF")
E(24, spv::QuantizationModes::RND_MIN_INF, "RND_MIN_INF")
E(24, spv::QuantizationModes::RND_CONV, "RND_CONV")
E(24, spv::QuantizationModes::RND_CONV_ODD, "RND_CONV_ODD")
E(25, spv::FPOperationMode::IEEE, "IEEE")
E(25, spv::FPOperationMode::ALT, "ALT")
E(26, spv::OverflowModes::WRAP, "WRAP")
E(26, spv::OverflowModes::SAT, "SAT")
E(26, spv::OverflowModes::SAT_ZERO, "SAT_ZERO")
E(26, spv::OverflowModes::SAT_SYM, "SAT_SYM")
E(27, spv::LinkageType::Export, "Export")
E(27, spv::LinkageType::Import, "Import")
E(27, spv::LinkageType::LinkOnceODR, "LinkOnceODR")
E(28, spv::AccessQualifier::ReadOnly, "ReadOnly")
E(28, spv::AccessQualifier::WriteOnly, "WriteOnly")
E(28, spv::AccessQualifier::ReadWrite, "ReadWrite")
E(29, spv::HostAccessQualifier::NoneINTEL, "NoneINTEL")
E(29, spv::HostAccessQualifier::ReadINTEL, "ReadINTEL")
E(29, spv::HostAccessQualifier::WriteINTEL, "WriteINTEL")
E(29, spv::HostAccessQualifier::ReadWriteINTEL, "ReadWriteINTEL")
E(30, spv::FunctionParameterAttribute::Zext, "Zext")
E(30, spv::FunctionParameterAttribute::Sext, "Sext")
E(30, spv::FunctionParameterAttribute::ByVal, "ByVal")
E(30, spv::FunctionParameterAttribute::Sret, "Sret")
E(30, spv::FunctionParameterAttribute::NoAlias, "NoAlias")
E(30, spv::FunctionParameterAttribute::NoCapture, "NoCapture")
E(30, spv::FunctionParameterAttribute::NoWrite, "NoWrite")
E(30, spv::FunctionParameterAttribute::NoReadWrite, "NoReadWrite")
E(30, spv::FunctionParameterAttribute::RuntimeAlignedINTEL, "RuntimeAlignedINTEL")
E(31, spv::Decoration::RelaxedPrecision, "RelaxedPrecision")
E(31, spv::Decoration::SpecId, "SpecId")
E(31, spv::Decoration::Block, "Block")
E(31, spv::Decoration::BufferBlock, "BufferBlock")
E(31, spv::Decoration::RowMajor, "RowMajor")
E(31, spv::Decoration::ColMajor, "ColMajor")
E(31, spv::Decoration::ArrayStride, "ArrayStride")
E(31, spv::Decoration::MatrixStride, "MatrixStride")
E(31, spv::Decoration::GLSLShared, "GLSLShared")
E(31, spv::Decoration::GLSLPacked, "GLSLPacked")
E(31, spv::Decoration::CPacked, "CPacked")
E(31, spv::Decoration::BuiltIn, "BuiltIn")
E(31, spv::Decoration::NoPerspective, "NoPerspective")
E(31, spv::Decoration::Flat, "Flat")
E(31, spv::Decoration::Patch, "Patch")
E(31, spv::Decoration::Centroid, "Centroid")
E(31, spv::Decoration::Sample, "Sample")
E(31, spv::Decoration::Invariant, "Invariant")
E(31, spv::Decoration::Restrict, "Restrict")
E(31, spv::Decoration::Aliased, "Aliased")
E(31, spv::Decoration::Volatile, "Volatile")
E(31, spv::Decoration::Constant, "Constant")
E(31, spv::Decoration::Coherent, "Coherent")
E(31, spv::Decoration::NonWritable, "NonWritable")
E(31, spv::Decoration::NonReadable, "NonReadable")
E(31, spv::Decoration::Uniform, "Uniform")
E(31, spv::Decoration::UniformId, "UniformId")
E(31, spv::Decoration::SaturatedConversion, "SaturatedConversion")
E(31, spv::Decoration::Stream, "Stream")
E(31, spv::Decoration::Location, "Location")
E(31, spv::Decoration::Component, "Component")
E(31, spv::Decoration::Index, "Index")
E(31, spv::Decoration::Binding, "Binding")
E(31, spv::Decoration::DescriptorSet, "DescriptorSet")
E(31, spv::Decoration::Offset, "Offset")
E(31, spv::Decoration::XfbBuffer, "XfbBuffer")
E(31, spv::Decoration::XfbStride, "XfbStride")
E(31, spv::Decoration::FuncParamAttr, "FuncParamAttr")
E(31, spv::Decoration::FPRoundingMode, "FPRoundingMode")
E(31, spv::Decoration::FPFastMathMode, "FPFastMathMode")
E(31, spv::Decoration::LinkageAttributes, "LinkageAttributes")
E(31, spv::Decoration::NoContraction, "NoContraction")
E(31, spv::Decoration::InputAttachmentIndex, "InputAttachmentIndex")
E(31, spv::Decoration::Alignment, "Alignment")
E(31, spv::Decoration::MaxByteOffset, "MaxByteOffset")
E(31, spv::Decoration::AlignmentId, "AlignmentId")
E(31, spv::Decoration::MaxByteOffsetId, "MaxByteOffsetId")
E(31, spv::Decoration::NoSignedWrap, "NoSignedWrap")
E(31, spv::Decoration::NoUnsignedWrap, "NoUnsignedWrap")
E(31, spv::Decoration::WeightTextureQCOM, "WeightTextureQCOM")
E(31, spv::Decoration::BlockMatchTextureQCOM, "BlockMatchTextureQCOM")
E(31, spv::Decoration::ExplicitInterpAMD, "ExplicitInterpAMD")
E(31, spv::Decoration::NodeSharesPayloadLimitsWithAMDX, "NodeSharesPayloadLimitsWithAMDX")
E(31, spv::Decoration::NodeMaxPayloadsAMDX, "NodeMaxPayloadsAMDX")
E(31, spv::Decoration::TrackFinishWritingAMDX, "TrackFinishWritingAMDX")
E(31, spv::Decoration::PayloadNodeNameAMDX, "PayloadNodeNameAMDX")
E(31, spv::Decoration::OverrideCoverageNV, "OverrideCoverageNV")
E(31, spv::Decoration::PassthroughNV, "PassthroughNV")
E(31, spv::Decoration::ViewportRelativeNV, "ViewportRelativeNV")
E(31, spv::Decoration::SecondaryViewportRelativeNV, "SecondaryViewportRelativeNV")
E(31, spv::Decoration::PerPrimitiveNV, "PerPrimitiveNV")
E(31, spv::Decoration::PerViewNV, "PerViewNV")
E(31, spv::Decoration::PerTaskNV, "PerTaskNV")
E(31, spv::Decoration::PerVertexKHR, "PerVertexKHR")
E(31, spv::Decoration::NonUniform, "NonUniform")
E(31, spv::Decoration::RestrictPointer, "RestrictPointer")
E(31, spv::Decoration::AliasedPointer, "AliasedPointer")
E(31, spv::Decoration::HitObjectShaderRecordBufferNV, "HitObjectShaderRecordBufferNV")
E(31, spv::Decoration::BindlessSamplerNV, "BindlessSamplerNV")
E(31, spv::Decoration::BindlessImageNV, "BindlessImageNV")
E(31, spv::Decoration::BoundSamplerNV, "BoundSamplerNV")
E(31, spv::Decoration::BoundImageNV, "BoundImageNV")
E(31, spv::Decoration::SIMTCallINTEL, "SIMTCallINTEL")
E(31, spv::Decoration::ReferencedIndirectlyINTEL, "ReferencedIndirectlyINTEL")
E(31, spv::Decoration::ClobberINTEL, "ClobberINTEL")
E(31, spv::Decoration::SideEffectsINTEL, "SideEffectsINTEL")
E(31, spv::Decoration::VectorComputeVariableINTEL, "VectorComputeVariableINTEL")
E(31, spv::Decoration::FuncParamIOKindINTEL, "FuncParamIOKindINTEL")
E(31, spv::Decoration::VectorComputeFunctionINTEL, "VectorComputeFunctionINTEL")
E(31, spv::Decoration::StackCallINTEL, "StackCallINTEL")
E(31, spv::Decoration::GlobalVariableOffsetINTEL, "GlobalVariableOffsetINTEL")
E(31, spv::Decoration::CounterBuffer, "CounterBuffer")
E(31, spv::Decoration::UserSemantic, "UserSemantic")
E(31, spv::Decoration::UserTypeGOOGLE, "UserTypeGOOGLE")
E(31, spv::Decoration::FunctionRoundingModeINTEL, "FunctionRoundingModeINTEL")
E(31, spv::Decoration::FunctionDenormModeINTEL, "FunctionDenormModeINTEL")
E(31, spv::Decoration::RegisterINTEL, "RegisterINTEL")
E(31, spv::Decoration::MemoryINTEL, "MemoryINTEL")
E(31, spv::Decoration::NumbanksINTEL, "NumbanksINTEL")
E(31, spv::Decoration::BankwidthINTEL, "BankwidthINTEL")
E(31, spv::Decoration::MaxPrivateCopiesINTEL, "MaxPrivateCopiesINTEL")
E(31, spv::Decoration::SinglepumpINTEL, "SinglepumpINTEL")
E(31, spv::Decoration::DoublepumpINTEL, "DoublepumpINTEL")
E(31, spv::Decoration::MaxReplicatesINTEL, "MaxReplicatesINTEL")
E(31, spv::Decoration::SimpleDualPortINTEL, "SimpleDualPortINTEL")
E(31, spv::Decoration::MergeINTEL, "MergeINTEL")
E(31, spv::Decoration::BankBitsINTEL, "BankBitsINTEL")
E(31, spv::Decoration::ForcePow2DepthINTEL, "ForcePow2DepthINTEL")
E(31, spv::Decoration::BurstCoalesceINTEL, "BurstCoalesceINTEL")
E(31, spv::Decoration::CacheSizeINTEL, "CacheSizeINTEL")
E(31, spv::Decoration::DontStaticallyCoalesceINTEL, "DontStaticallyCoalesceINTEL")
E(31, spv::Decoration::PrefetchINTEL, "PrefetchINTEL")
E(31, spv::Decoration::StallEnableINTEL, "StallEnableINTEL")
E(31, spv::Decoration::FuseLoopsInFunctionINTEL, "FuseLoopsInFunctionINTEL")
E(31, spv::Decoration::MathOpDSPModeINTEL, "MathOpDSPModeINTEL")
E(31, spv::Decoration::AliasScopeINTEL, "AliasScopeINTEL")
E(31, spv::Decoration::NoAliasINTEL, "NoAliasINTEL")
E(31, spv::Decoration::InitiationIntervalINTEL, "InitiationIntervalINTEL")
E(31, spv::Decoration::MaxConcurrencyINTEL, "MaxConcurrencyINTEL")
E(31, spv::Decoration::PipelineEnableINTEL, "PipelineEnableINTEL")
E(31, spv::Decoration::BufferLocationINTEL, "BufferLocationINTEL")
E(31, spv::Decoration::IOPipeStorageINTEL, "IOPipeStorageINTEL")
E(31, spv::Decoration::FunctionFloatingPointModeINTEL, "FunctionFloatingPointModeINTEL")
E(31, spv::Decoration::SingleElementVectorINTEL, "SingleElementVectorINTEL")
E(31, spv::Decoration::VectorComputeCallableFunctionINTEL, "VectorComputeCallableFunctionINTEL")
E(31, spv::Decoration::MediaBlockIOINTEL, "MediaBlockIOINTEL")
E(31, spv::Decoration::InitModeINTEL, "InitModeINTEL")
E(31, spv::Decoration::ImplementInRegisterMapINTEL, "ImplementInRegisterMapINTEL")
E(31, spv::Decoration::HostAccessINTEL, "HostAccessINTEL")
E(31, spv::Decoration::FPMaxErrorDecorationINTEL, "FPMaxErrorDecorationINTEL")
E(31, spv::Decoration::LatencyControlLabelINTEL, "LatencyControlLabelINTEL")
E(31, spv::Decoration::LatencyControlConstraintINTEL, "LatencyControlConstraintINTEL")
E(31, spv::Decoration::ConduitKernelArgumentINTEL, "ConduitKernelArgumentINTEL")
E(31, spv::Decoration::RegisterMapKernelArgumentINTEL, "RegisterMapKernelArgumentINTEL")
E(31, spv::Decoration::MMHostInterfaceAddressWidthINTEL, "MMHostInterfaceAddressWidthINTEL")
E(31, spv::Decoration::MMHostInterfaceDataWidthINTEL, "MMHostInterfaceDataWidthINTEL")
E(31, spv::Decoration::MMHostInterfaceLatencyINTEL, "MMHostInterfaceLatencyINTEL")
E(31, spv::Decoration::MMHostInterfaceReadWriteModeINTEL, "MMHostInterfaceReadWriteModeINTEL")
E(31, spv::Decoration::MMHostInterfaceMaxBurstINTEL, "MMHostInterfaceMaxBurstINTEL")
E(31, spv::Decoration::MMHostInterfaceWaitRequestINTEL, "MMHostInterfaceWaitRequestINTEL")
E(31, spv::Decoration::StableKernelArgumentINTEL, "StableKernelArgumentINTEL")
E(31, spv::Decoration::CacheControlLoadINTEL, "CacheControlLoadINTEL")
E(31, spv::Decoration::CacheControlStoreINTEL, "CacheControlStoreINTEL")
E(32, spv::BuiltIn::Position, "Position")
E(32, spv::BuiltIn::PointSize, "PointSize")
E(32, spv::BuiltIn::ClipDistance, "ClipDistance")
E(32, spv::BuiltIn::CullDistance, "CullDistance")
E(32, spv::BuiltIn::VertexId, "VertexId")
E(32, spv::BuiltIn::InstanceId, "InstanceId")
E(32, spv::BuiltIn::PrimitiveId, "PrimitiveId")
E(32, spv::BuiltIn::InvocationId, "InvocationId")
E(32, spv::BuiltIn::Layer, "Layer")
E(32, spv::BuiltIn::ViewportIndex, "ViewportIndex")
E(32, spv::BuiltIn::TessLevelOuter, "TessLevelOuter")
E(32, spv::BuiltIn::TessLevelInner, "TessLevelInner")
E(32, spv::BuiltIn::TessCoord, "TessCoord")
E(32, spv::BuiltIn::PatchVertices, "PatchVertices")
E(32, spv::BuiltIn::FragCoord, "FragCoord")
E(32, spv::BuiltIn::PointCoord, "PointCoord")
E(32, spv::BuiltIn::FrontFacing, "FrontFacing")
E(32, spv::BuiltIn::SampleId, "SampleId")
E(32, spv::BuiltIn::SamplePosition, "SamplePosition")
E(32, spv::BuiltIn::SampleMask, "SampleMask")
E(32, spv::BuiltIn::FragDepth, "FragDepth")
E(32, spv::BuiltIn::HelperInvocation, "HelperInvocation")
E(32, spv::BuiltIn::NumWorkgroups, "NumWorkgroups")
E(32, spv::BuiltIn::WorkgroupSize, "WorkgroupSize")
E(32, spv::BuiltIn::WorkgroupId, "WorkgroupId")
E(32, spv::BuiltIn::LocalInvocationId, "LocalInvocationId")
E(32, spv::BuiltIn::GlobalInvocationId, "GlobalInvocationId")
E(32, spv::BuiltIn::LocalInvocationIndex, "LocalInvocationIndex")
E(32, spv::BuiltIn::WorkDim, "WorkDim")
E(32, spv::BuiltIn::GlobalSize, "GlobalSize")
E(32, spv::BuiltIn::EnqueuedWorkgroupSize, "EnqueuedWorkgroupSize")
E(32, spv::BuiltIn::GlobalOffset, "GlobalOffset")
E(32, spv::BuiltIn::GlobalLinearId, "GlobalLinearId")
E(32, spv::BuiltIn::SubgroupSize, "SubgroupSize")
E(32, spv::BuiltIn::SubgroupMaxSize, "SubgroupMaxSize")
E(32, spv::BuiltIn::NumSubgroups, "NumSubgroups")
E(32, spv::BuiltIn::NumEnqueuedSubgroups, "NumEnqueuedSubgroups")
E(32, spv::BuiltIn::SubgroupId, "SubgroupId")
E(32, spv::BuiltIn::SubgroupLocalInvocationId, "SubgroupLocalInvocationId")
E(32, spv::BuiltIn::VertexIndex, "VertexIndex")
E(32, spv::BuiltIn::InstanceIndex, "InstanceIndex")
E(32, spv::BuiltIn::CoreIDARM, "CoreIDARM")
E(32, spv::BuiltIn::CoreCountARM, "CoreCountARM")
E(32, spv::BuiltIn::CoreMaxIDARM, "CoreMaxIDARM")
E(32, spv::BuiltIn::WarpIDARM, "WarpIDARM")
E(32, spv::BuiltIn::WarpMaxIDARM, "WarpMaxIDARM")
E(32, spv::BuiltIn::SubgroupEqMask, "SubgroupEqMask")
E(32, spv::BuiltIn::SubgroupGeMask, "SubgroupGeMask")
E(32, spv::BuiltIn::SubgroupGtMask, "SubgroupGtMask")
E(32, spv::BuiltIn::SubgroupLeMask, "SubgroupLeMask")
E(32, spv::BuiltIn::SubgroupLtMask, "SubgroupLtMask")
E(32, spv::BuiltIn::BaseVertex, "BaseVertex")
E(32, spv::BuiltIn::BaseInstance, "BaseInstance")
E(32, spv::BuiltIn::DrawIndex, "DrawIndex")
E(32, spv::BuiltIn::PrimitiveShadingRateKHR, "PrimitiveShadingRateKHR")
E(32, spv::BuiltIn::DeviceIndex, "DeviceIndex")
E(32, spv::BuiltIn::ViewIndex, "ViewIndex")
E(32, spv::BuiltIn::ShadingRateKHR, "ShadingRateKHR")
E(32, spv::BuiltIn::BaryCoordNoPerspAMD, "BaryCoordNoPerspAMD")
E(32, spv::BuiltIn::BaryCoordNoPerspCentroidAMD, "BaryCoordNoPerspCentroidAMD")
E(32, spv::BuiltIn::BaryCoordNoPerspSampleAMD, "BaryCoordNoPerspSampleAMD")
E(32, spv::BuiltIn::BaryCoordSmoothAMD, "BaryCoordSmoothAMD")
E(32, spv::BuiltIn::BaryCoordSmoothCentroidAMD, "BaryCoordSmoothCentroidAMD")
E(32, spv::BuiltIn::BaryCoordSmoothSampleAMD, "BaryCoordSmoothSampleAMD")
E(32, spv::BuiltIn::BaryCoordPullModelAMD, "BaryCoordPullModelAMD")
E(32, spv::BuiltIn::FragStencilRefEXT, "FragStencilRefEXT")
E(32, spv::BuiltIn::CoalescedInputCountAMDX, "CoalescedInputCountAMDX")
E(32, spv::BuiltIn::ShaderIndexAMDX, "ShaderIndexAMDX")
E(32, spv::BuiltIn::ViewportMaskNV, "ViewportMaskNV")
E(32, spv::BuiltIn::SecondaryPositionNV, "SecondaryPositionNV")
E(32, spv::BuiltIn::SecondaryViewportMaskNV, "SecondaryViewportMaskNV")
E(32, spv::BuiltIn::PositionPerViewNV, "PositionPerViewNV")
E(32, spv::BuiltIn::ViewportMaskPerViewNV, "ViewportMaskPerViewNV")
E(32, spv::BuiltIn::FullyCoveredEXT, "FullyCoveredEXT")
E(32, spv::BuiltIn::TaskCountNV, "TaskCountNV")
E(32, spv::BuiltIn::PrimitiveCountNV, "PrimitiveCountNV")
E(32, spv::BuiltIn::PrimitiveIndicesNV, "PrimitiveIndicesNV")
E(32, spv::BuiltIn::ClipDistancePerViewNV, "ClipDistancePerViewNV")
E(32, spv::BuiltIn::CullDistancePerViewNV, "CullDistancePerViewNV")
E(32, spv::BuiltIn::LayerPerViewNV, "LayerPerViewNV")
E(32, spv::BuiltIn::MeshViewCountNV, "MeshViewCountNV")
E(32, spv::BuiltIn::MeshViewIndicesNV, "MeshViewIndicesNV")
E(32, spv::BuiltIn::BaryCoordKHR, "BaryCoordKHR")
E(32, spv::BuiltIn::BaryCoordNoPerspKHR, "BaryCoordNoPerspKHR")
E(32, spv::BuiltIn::FragSizeEXT, "FragSizeEXT")
E(32, spv::BuiltIn::FragInvocationCountEXT, "FragInvocationCountEXT")
E(32, spv::BuiltIn::PrimitivePointIndicesEXT, "PrimitivePointIndicesEXT")
E(32, spv::BuiltIn::PrimitiveLineIndicesEXT, "PrimitiveLineIndicesEXT")
E(32, spv::BuiltIn::PrimitiveTriangleIndicesEXT, "PrimitiveTriangleIndicesEXT")
E(32, spv::BuiltIn::CullPrimitiveEXT, "CullPrimitiveEXT")
E(32, spv::BuiltIn::LaunchIdNV, "LaunchIdNV")
E(32, spv::BuiltIn::LaunchSizeNV, "LaunchSizeNV")
E(32, spv::BuiltIn::WorldRayOriginNV, "WorldRayOriginNV")
E(32, spv::BuiltIn::WorldRayDirectionNV, "WorldRayDirectionNV")
E(32, spv::BuiltIn::ObjectRayOriginNV, "ObjectRayOriginNV")
E(32, spv::BuiltIn::ObjectRayDirectionNV, "ObjectRayDirectionNV")
E(32, spv::BuiltIn::RayTminNV, "RayTminNV")
E(32, spv::BuiltIn::RayTmaxNV, "RayTmaxNV")
E(32, spv::BuiltIn::InstanceCustomIndexNV, "InstanceCustomIndexNV")
E(32, spv::BuiltIn::ObjectToWorldNV, "ObjectToWorldNV")
E(32, spv::BuiltIn::WorldToObjectNV, "WorldToObjectNV")
E(32, spv::BuiltIn::HitTNV, "HitTNV")
E(32, spv::BuiltIn::HitKindNV, "HitKindNV")
E(32, spv::BuiltIn::CurrentRayTimeNV, "CurrentRayTimeNV")
E(32, spv::BuiltIn::HitTriangleVertexPositionsKHR, "HitTriangleVertexPositionsKHR")
E(32, spv::BuiltIn::IncomingRayFlagsNV, "IncomingRayFlagsNV")
E(32, spv::BuiltIn::RayGeometryIndexKHR, "RayGeometryIndexKHR")
E(32, spv::BuiltIn::WarpsPerSMNV, "WarpsPerSMNV")
E(32, spv::BuiltIn::SMCountNV, "SMCountNV")
E(32, spv::BuiltIn::WarpIDNV, "WarpIDNV")
E(32, spv::BuiltIn::SMIDNV, "SMIDNV")
E(32, spv::BuiltIn::CullMaskKHR, "CullMaskKHR")
E(33, spv::Scope::CrossDevice, "CrossDevice")
E(33, spv::Scope::Device, "Device")
E(33, spv::Scope::Workgroup, "Workgroup")
E(33, spv::Scope::Subgroup, "Subgroup")
E(33, spv::Scope::Invocation, "Invocation")
E(33, spv::Scope::QueueFamily, "QueueFamily")
E(33, spv::Scope::ShaderCallKHR, "ShaderCallKHR")
E(34, spv::GroupOperation::Reduce, "Reduce")
E(34, spv::GroupOperation::InclusiveScan, "InclusiveScan")
E(34, spv::GroupOperation::ExclusiveScan, "ExclusiveScan")
E(34, spv::GroupOperation::ClusteredReduce, "ClusteredReduce")
E(34, spv::GroupOperation::PartitionedReduceNV, "PartitionedReduceNV")
E(34, spv::GroupOperation::PartitionedInclusiveScanNV, "PartitionedInclusiveScanNV")
E(34, spv::GroupOperation::PartitionedExclusiveScanNV, "PartitionedExclusiveScanNV")
E(35, spv::KernelEnqueueFlags::NoWait, "NoWait")
E(35, spv::KernelEnqueueFlags::WaitKernel, "WaitKernel")
E(35, spv::KernelEnqueueFlags::WaitWorkGroup, "WaitWorkGroup")
E(36, spv::Capability::Matrix, "Matrix")
E(36, spv::Capability::Shader, "Shader")
E(36, spv::Capability::Geometry, "Geometry")
E(36, spv::Capability::Tessellation, "Tessellation")
E(36, spv::Capability::Addresses, "Addresses")
E(36, spv::Capability::Linkage, "Linkage")
E(36, spv::Capability::Kernel, "Kernel")
E(36, spv::Capability::Vector16, "Vector16")
E(36, spv::Capability::Float16Buffer, "Float16Buffer")
E(36, spv::Capability::Float16, "Float16")
E(36, spv::Capability::Float64, "Float64")
E(36, spv::Capability::Int64, "Int64")
E(36, spv::Capability::Int64Atomics, "Int64Atomics")
E(36, spv::Capability::ImageBasic, "ImageBasic")
E(36, spv::Capability::ImageReadWrite, "ImageReadWrite")
E(36, spv::Capability::ImageMipmap, "ImageMipmap")
E(36, spv::Capability::Pipes, "Pipes")
E(36, spv::Capability::Groups, "Groups")
E(36, spv::Capability::DeviceEnqueue, "DeviceEnqueue")
E(36, spv::Capability::LiteralSampler, "LiteralSampler")
E(36, spv::Capability::AtomicStorage, "AtomicStorage")
E(36, spv::Capability::Int16, "Int16")
E(36, spv::Capability::TessellationPointSize, "TessellationPointSize")
E(36, spv::Capability::GeometryPointSize, "GeometryPointSize")
E(36, spv::Capability::ImageGatherExtended, "ImageGatherExtended")
E(36, spv::Capability::StorageImageMultisample, "StorageImageMultisample")
E(36, spv::Capability::UniformBufferArrayDynamicIndexing, "UniformBufferArrayDynamicIndexing")
E(36, spv::Capability::SampledImageArrayDynamicIndexing, "SampledImageArrayDynamicIndexing")
E(36, spv::Capability::StorageBufferArrayDynamicIndexing, "StorageBufferArrayDynamicIndexing")
E(36, spv::Capability::StorageImageArrayDynamicIndexing, "StorageImageArrayDynamicIndexing")
E(36, spv::Capability::ClipDistance, "ClipDistance")
E(36, spv::Capability::CullDistance, "CullDistance")
E(36, spv::Capability::ImageCubeArray, "ImageCubeArray")
E(36, spv::Capability::SampleRateShading, "SampleRateShading")
E(36, spv::Capability::ImageRect, "ImageRect")
E(36, spv::Capability::SampledRect, "SampledRect")
E(36, spv::Capability::GenericPointer, "GenericPointer")
E(36, spv::Capability::Int8, "Int8")
E(36, spv::Capability::InputAttachment, "InputAttachment")
E(36, spv::Capability::SparseResidency, "SparseResidency")
E(36, spv::Capability::MinLod, "MinLod")
E(36, spv::Capability::Sampled1D, "Sampled1D")
E(36, spv::Capability::Image1D, "Image1D")
E(36, spv::Capability::SampledCubeArray, "SampledCubeArray")
E(36, spv::Capability::SampledBuffer, "SampledBuffer")
E(36, spv::Capability::ImageBuffer, "ImageBuffer")
E(36, spv::Capability::ImageMSArray, "ImageMSArray")
E(36, spv::Capability::StorageImageExtendedFormats, "StorageImageExtendedFormats")
E(36, spv::Capability::ImageQuery, "ImageQuery")
E(36, spv::Capability::DerivativeControl, "DerivativeControl")
E(36, spv::Capability::InterpolationFunction, "InterpolationFunction")
E(36, spv::Capability::TransformFeedback, "TransformFeedback")
E(36, spv::Capability::GeometryStreams, "GeometryStreams")
E(36, spv::Capability::StorageImageReadWithoutFormat, "StorageImageReadWithoutFormat")
E(36, spv::Capability::StorageImageWriteWithoutFormat, "StorageImageWriteWithoutFormat")
E(36, spv::Capability::MultiViewport, "MultiViewport")
E(36, spv::Capability::SubgroupDispatch, "SubgroupDispatch")
E(36, spv::Capability::NamedBarrier, "NamedBarrier")
E(36, spv::Capability::PipeStorage, "PipeStorage")
E(36, spv::Capability::GroupNonUniform, "GroupNonUniform")
E(36, spv::Capability::GroupNonUniformVote, "GroupNonUniformVote")
E(36, spv::Capability::GroupNonUniformArithmetic, "GroupNonUniformArithmetic")
E(36, spv::Capability::GroupNonUniformBallot, "GroupNonUniformBallot")
E(36, spv::Capability::GroupNonUniformShuffle, "GroupNonUniformShuffle")
E(36, spv::Capability::GroupNonUniformShuffleRelative, "GroupNonUniformShuffleRelative")
E(36, spv::Capability::GroupNonUniformClustered, "GroupNonUniformClustered")
E(36, spv::Capability::GroupNonUniformQuad, "GroupNonUniformQuad")
E(36, spv::Capability::ShaderLayer, "ShaderLayer")
E(36, spv::Capability::ShaderViewportIndex, "ShaderViewportIndex")
E(36, spv::Capability::UniformDecoration, "UniformDecoration")
E(36, spv::Capability::CoreBuiltinsARM, "CoreBuiltinsARM")
E(36, spv::Capability::TileImageColorReadAccessEXT, "TileImageColorReadAccessEXT")
E(36, spv::Capability::TileImageDepthReadAccessEXT, "TileImageDepthReadAccessEXT")
E(36, spv::Capability::TileImageStencilReadAccessEXT, "TileImageStencilReadAccessEXT")
E(36, spv::Capability::FragmentShadingRateKHR, "FragmentShadingRateKHR")
E(36, spv::Capability::SubgroupBallotKHR, "SubgroupBallotKHR")
E(36, spv::Capability::DrawParameters, "DrawParameters")
E(36, spv::Capability::WorkgroupMemoryExplicitLayoutKHR, "WorkgroupMemoryExplicitLayoutKHR")
E(36, spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR, "WorkgroupMemoryExplicitLayout8BitAccessKHR")
E(36, spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR, "WorkgroupMemoryExplicitLayout16BitAccessKHR")
E(36, spv::Capability::SubgroupVoteKHR, "SubgroupVoteKHR")
E(36, spv::Capability::StorageBuffer16BitAccess, "StorageBuffer16BitAccess")
E(36, spv::Capability::UniformAndStorageBuffer16BitAccess, "UniformAndStorageBuffer16BitAccess")
E(36, spv::Capability::StoragePushConstant16, "StoragePushConstant16")
E(36, spv::Capability::StorageInputOutput16, "StorageInputOutput16")
E(36, spv::Capability::DeviceGroup, "DeviceGroup")
E(36, spv::Capability::MultiView, "MultiView")
E(36, spv::Capability::VariablePointersStorageBuffer, "VariablePointersStorageBuffer")
E(36, spv::Capability::VariablePointers, "VariablePointers")
E(36, spv::Capability::AtomicStorageOps, "AtomicStorageOps")
E(36, spv::Capability::SampleMaskPostDepthCoverage, "SampleMaskPostDepthCoverage")
E(36, spv::Capability::StorageBuffer8BitAccess, "StorageBuffer8BitAccess")
E(36, spv::Capability::UniformAndStorageBuffer8BitAccess, "UniformAndStorageBuffer8BitAccess")
E(36, spv::Capability::StoragePushConstant8, "StoragePushConstant8")
E(36, spv::Capability::DenormPreserve, "DenormPreserve")
E(36, spv::Capability::DenormFlushToZero, "DenormFlushToZero")
E(36, spv::Capability::SignedZeroInfNanPreserve, "SignedZeroInfNanPreserve")
E(36, spv::Capability::RoundingModeRTE, "RoundingModeRTE")
E(36, spv::Capability::RoundingModeRTZ, "RoundingModeRTZ")
E(36, spv::Capability::RayQueryProvisionalKHR, "RayQueryProvisionalKHR")
E(36, spv::Capability::RayQueryKHR, "RayQueryKHR")
E(36, spv::Capability::RayTraversalPrimitiveCullingKHR, "RayTraversalPrimitiveCullingKHR")
E(36, spv::Capability::RayTracingKHR, "RayTracingKHR")
E(36, spv::Capability::TextureSampleWeightedQCOM, "TextureSampleWeightedQCOM")
E(36, spv::Capability::TextureBoxFilterQCOM, "TextureBoxFilterQCOM")
E(36, spv::Capability::TextureBlockMatchQCOM, "TextureBlockMatchQCOM")
E(36, spv::Capability::Float16ImageAMD, "Float16ImageAMD")
E(36, spv::Capability::ImageGatherBiasLodAMD, "ImageGatherBiasLodAMD")
E(36, spv::Capability::FragmentMaskAMD, "FragmentMaskAMD")
E(36, spv::Capability::StencilExportEXT, "StencilExportEXT")
E(36, spv::Capability::ImageReadWriteLodAMD, "ImageReadWriteLodAMD")
E(36, spv::Capability::Int64ImageEXT, "Int64ImageEXT")
E(36, spv::Capability::ShaderClockKHR, "ShaderClockKHR")
E(36, spv::Capability::ShaderEnqueueAMDX, "ShaderEnqueueAMDX")
E(36, spv::Capability::SampleMaskOverrideCoverageNV, "SampleMaskOverrideCoverageNV")
E(36, spv::Capability::GeometryShaderPassthroughNV, "GeometryShaderPassthroughNV")
E(36, spv::Capability::ShaderViewportIndexLayerEXT, "ShaderViewportIndexLayerEXT")
E(36, spv::Capability::ShaderViewportMaskNV, "ShaderViewportMaskNV")
E(36, spv::Capability::ShaderStereoViewNV, "ShaderStereoViewNV")
E(36, spv::Capability::PerViewAttributesNV, "PerViewAttributesNV")
E(36, spv::Capability::FragmentFullyCoveredEXT, "FragmentFullyCoveredEXT")
E(36, spv::Capability::MeshShadingNV, "MeshShadingNV")
E(36, spv::Capability::ImageFootprintNV, "ImageFootprintNV")
E(36, spv::Capability::MeshShadingEXT, "MeshShadingEXT")
E(36, spv::Capability::FragmentBarycentricKHR, "FragmentBarycentricKHR")
E(36, spv::Capability::ComputeDerivativeGroupQuadsNV, "ComputeDerivativeGroupQuadsNV")
E(36, spv::Capability::FragmentDensityEXT, "FragmentDensityEXT")
E(36, spv::Capability::GroupNonUniformPartitionedNV, "GroupNonUniformPartitionedNV")
E(36, spv::Capability::ShaderNonUniform, "ShaderNonUniform")
E(36, spv::Capability::RuntimeDescriptorArray, "RuntimeDescriptorArray")
E(36, spv::Capability::InputAttachmentArrayDynamicIndexing, "InputAttachmentArrayDynamicIndexing")
E(36, spv::Capability::UniformTexelBufferArrayDynamicIndexing, "UniformTexelBufferArrayDynamicIndexing")
E(36, spv::Capability::StorageTexelBufferArrayDynamicIndexing, "StorageTexelBufferArrayDynamicIndexing")
E(36, spv::Capability::UniformBufferArrayNonUniformIndexing, "UniformBufferArrayNonUniformIndexing")
E(36, spv::Capability::SampledImageArrayNonUniformIndexing, "SampledImageArrayNonUniformIndexing")
E(36, spv::Capability::StorageBufferArrayNonUniformIndexing, "StorageBufferArrayNonUniformIndexing")
E(36, spv::Capability::StorageImageArrayNonUniformIndexing, "StorageImageArrayNonUniformIndexing")
E(36, spv::Capability::InputAttachmentArrayNonUniformIndexing, "InputAttachmentArrayNonUniformIndexing")
E(36, spv::Capability::UniformTexelBufferArrayNonUniformIndexing, "UniformTexelBufferArrayNonUniformIndexing")
E(36, spv::Capability::StorageTexelBufferArrayNonUniformIndexing, "StorageTexelBufferArrayNonUniformIndexing")
E(36, spv::Capability::RayTracingPositionFetchKHR, "RayTracingPositionFetchKHR")
E(36, spv::Capability::RayTracingNV, "RayTracingNV")
E(36, spv::Capability::RayTracingMotionBlurNV, "RayTracingMotionBlurNV")
E(36, spv::Capability::VulkanMemoryModel, "VulkanMemoryModel")
E(36, spv::Capability::VulkanMemoryModelDeviceScope, "VulkanMemoryModelDeviceScope")
E(36, spv::Capability::PhysicalStorageBufferAddresses, "PhysicalStorageBufferAddresses")
E(36, spv::Capability::ComputeDerivativeGroupLinearNV, "ComputeDerivativeGroupLinearNV")
E(36, spv::Capability::RayTracingProvisionalKHR, "RayTracingProvisionalKHR")
E(36, spv::Capability::CooperativeMatrixNV, "CooperativeMatrixNV")
E(36, spv::Capability::FragmentShaderSampleInterlockEXT, "FragmentShaderSampleInterlockEXT")
E(36, spv::Capability::FragmentShaderShadingRateInterlockEXT, "FragmentShaderShadingRateInterlockEXT")
E(36, spv::Capability::ShaderSMBuiltinsNV, "ShaderSMBuiltinsNV")
E(36, spv::Capability::FragmentShaderPixelInterlockEXT, "FragmentShaderPixelInterlockEXT")
E(36, spv::Capability::DemoteToHelperInvocation, "DemoteToHelperInvocation")
E(36, spv::Capability::RayTracingOpacityMicromapEXT, "RayTracingOpacityMicromapEXT")
E(36, spv::Capability::ShaderInvocationReorderNV, "ShaderInvocationReorderNV")
E(36, spv::Capability::BindlessTextureNV, "BindlessTextureNV")
E(36, spv::Capability::RayQueryPositionFetchKHR, "RayQueryPositionFetchKHR")
E(36, spv::Capability::SubgroupShuffleINTEL, "SubgroupShuffleINTEL")
E(36, spv::Capability::SubgroupBufferBlockIOINTEL, "SubgroupBufferBlockIOINTEL")
E(36, spv::Capability::SubgroupImageBlockIOINTEL, "SubgroupImageBlockIOINTEL")
E(36, spv::Capability::SubgroupImageMediaBlockIOINTEL, "SubgroupImageMediaBlockIOINTEL")
E(36, spv::Capability::RoundToInfinityINTEL, "RoundToInfinityINTEL")
E(36, spv::Capability::FloatingPointModeINTEL, "FloatingPointModeINTEL")
E(36, spv::Capability::IntegerFunctions2INTEL, "IntegerFunctions2INTEL")
E(36, spv::Capability::FunctionPointersINTEL, "FunctionPointersINTEL")
E(36, spv::Capability::IndirectReferencesINTEL, "IndirectReferencesINTEL")
E(36, spv::Capability::AsmINTEL, "AsmINTEL")
E(36, spv::Capability::AtomicFloat32MinMaxEXT, "AtomicFloat32MinMaxEXT")
E(36, spv::Capability::AtomicFloat64MinMaxEXT, "AtomicFloat64MinMaxEXT")
E(36, spv::Capability::AtomicFloat16MinMaxEXT, "AtomicFloat16MinMaxEXT")
E(36, spv::Capability::VectorComputeINTEL, "VectorComputeINTEL")
E(36, spv::Capability::VectorAnyINTEL, "VectorAnyINTEL")
E(36, spv::Capability::ExpectAssumeKHR, "ExpectAssumeKHR")
E(36, spv::Capability::SubgroupAvcMotionEstimationINTEL, "SubgroupAvcMotionEstimationINTEL")
E(36, spv::Capability::SubgroupAvcMotionEstimationIntraINTEL, "SubgroupAvcMotionEstimationIntraINTEL")
E(36, spv::Capability::SubgroupAvcMotionEstimationChromaINTEL, "SubgroupAvcMotionEstimationChromaINTEL")
E(36, spv::Capability::VariableLengthArrayINTEL, "VariableLengthArrayINTEL")
E(36, spv::Capability::FunctionFloatControlINTEL, "FunctionFloatControlINTEL")
E(36, spv::Capability::FPGAMemoryAttributesINTEL, "FPGAMemoryAttributesINTEL")
E(36, spv::Capability::FPFastMathModeINTEL, "FPFastMathModeINTEL")
E(36, spv::Capability::ArbitraryPrecisionIntegersINTEL, "ArbitraryPrecisionIntegersINTEL")
E(36, spv::Capability::ArbitraryPrecisionFloatingPointINTEL, "ArbitraryPrecisionFloatingPointINTEL")
E(36, spv::Capability::UnstructuredLoopControlsINTEL, "UnstructuredLoopControlsINTEL")
E(36, spv::Capability::FPGALoopControlsINTEL, "FPGALoopControlsINTEL")
E(36, spv::Capability::KernelAttributesINTEL, "KernelAttributesINTEL")
E(36, spv::Capability::FPGAKernelAttributesINTEL, "FPGAKernelAttributesINTEL")
E(36, spv::Capability::FPGAMemoryAccessesINTEL, "FPGAMemoryAccessesINTEL")
E(36, spv::Capability::FPGAClusterAttributesINTEL, "FPGAClusterAttributesINTEL")
E(36, spv::Capability::LoopFuseINTEL, "LoopFuseINTEL")
E(36, spv::Capability::FPGADSPControlINTEL, "FPGADSPControlINTEL")
E(36, spv::Capability::MemoryAccessAliasingINTEL, "MemoryAccessAliasingINTEL")
E(36, spv::Capability::FPGAInvocationPipeliningAttributesINTEL, "FPGAInvocationPipeliningAttributesINTEL")
E(36, spv::Capability::FPGABufferLocationINTEL, "FPGABufferLocationINTEL")
E(36, spv::Capability::ArbitraryPrecisionFixedPointINTEL, "ArbitraryPrecisionFixedPointINTEL")
E(36, spv::Capability::USMStorageClassesINTEL, "USMStorageClassesINTEL")
E(36, spv::Capability::RuntimeAlignedAttributeINTEL, "RuntimeAlignedAttributeINTEL")
E(36, spv::Capability::IOPipesINTEL, "IOPipesINTEL")
E(36, spv::Capability::BlockingPipesINTEL, "BlockingPipesINTEL")
E(36, spv::Capability::FPGARegINTEL, "FPGARegINTEL")
E(36, spv::Capability::DotProductInputAll, "DotProductInputAll")
E(36, spv::Capability::DotProductInput4x8Bit, "DotProductInput4x8Bit")
E(36, spv::Capability::DotProductInput4x8BitPacked, "DotProductInput4x8BitPacked")
E(36, spv::Capability::DotProduct, "DotProduct")
E(36, spv::Capability::RayCullMaskKHR, "RayCullMaskKHR")
E(36, spv::Capability::CooperativeMatrixKHR, "CooperativeMatrixKHR")
E(36, spv::Capability::BitInstructions, "BitInstructions")
E(36, spv::Capability::GroupNonUniformRotateKHR, "GroupNonUniformRotateKHR")
E(36, spv::Capability::AtomicFloat32AddEXT, "AtomicFloat32AddEXT")
E(36, spv::Capability::AtomicFloat64AddEXT, "AtomicFloat64AddEXT")
E(36, spv::Capability::LongConstantCompositeINTEL, "LongConstantCompositeINTEL")
E(36, spv::Capability::OptNoneINTEL, "OptNoneINTEL")
E(36, spv::Capability::AtomicFloat16AddEXT, "AtomicFloat16AddEXT")
E(36, spv::Capability::DebugInfoModuleINTEL, "DebugInfoModuleINTEL")
E(36, spv::Capability::BFloat16ConversionINTEL, "BFloat16ConversionINTEL")
E(36, spv::Capability::SplitBarrierINTEL, "SplitBarrierINTEL")
E(36, spv::Capability::GlobalVariableFPGADecorationsINTEL, "GlobalVariableFPGADecorationsINTEL")
E(36, spv::Capability::FPGAKernelAttributesv2INTEL, "FPGAKernelAttributesv2INTEL")
E(36, spv::Capability::GlobalVariableHostAccessINTEL, "GlobalVariableHostAccessINTEL")
E(36, spv::Capability::FPMaxErrorINTEL, "FPMaxErrorINTEL")
E(36, spv::Capability::FPGALatencyControlINTEL, "FPGALatencyControlINTEL")
E(36, spv::Capability::FPGAArgumentInterfacesINTEL, "FPGAArgumentInterfacesINTEL")
E(36, spv::Capability::GroupUniformArithmeticKHR, "GroupUniformArithmeticKHR")
E(36, spv::Capability::CacheControlsINTEL, "CacheControlsINTEL")
E(37, spv::RayQueryIntersection::RayQueryCandidateIntersectionKHR, "RayQueryCandidateIntersectionKHR")
E(37, spv::RayQueryIntersection::RayQueryCommittedIntersectionKHR, "RayQueryCommittedIntersectionKHR")
E(38, spv::RayQueryCommittedIntersectionType::RayQueryCommittedIntersectionNoneKHR, "RayQueryCommittedIntersectionNoneKHR")
E(38, spv::RayQueryCommittedIntersectionType::RayQueryCommittedIntersectionTriangleKHR, "RayQueryCommittedIntersectionTriangleKHR")
E(38, spv::RayQueryCommittedIntersectionType::RayQueryCommittedIntersectionGeneratedKHR, "RayQueryCommittedIntersectionGeneratedKHR")
E(39, spv::RayQueryCandidateIntersectionType::RayQueryCandidateIntersectionTriangleKHR, "RayQueryCandidateIntersectionTriangleKHR")
E(39, spv::RayQueryCandidateIntersectionType::RayQueryCandidateIntersectionAABBKHR, "RayQueryCandidateIntersectionAABBKHR")
E(40, spv::PackedVectorFormat::PackedVectorFormat4x8Bit, "PackedVectorFormat4x8Bit")
E(41, spv::CooperativeMatrixOperandsMask::NoneKHR, "NoneKHR")
E(41, spv::CooperativeMatrixOperandsMask::MatrixASignedComponentsKHR, "MatrixASignedComponentsKHR")
E(41, spv::CooperativeMatrixOperandsMask::MatrixBSignedComponentsKHR, "MatrixBSignedComponentsKHR")
E(41, spv::CooperativeMatrixOperandsMask::MatrixCSignedComponentsKHR, "MatrixCSignedComponentsKHR")
E(41, spv::CooperativeMatrixOperandsMask::MatrixResultSignedComponentsKHR, "MatrixResultSignedComponentsKHR")
E(41, spv::CooperativeMatrixOperandsMask::SaturatingAccumulationKHR, "SaturatingAccumulationKHR")
E(42, spv::CooperativeMatrixLayout::RowMajorKHR, "RowMajorKHR")
E(42, spv::CooperativeMatrixLayout::ColumnMajorKHR, "ColumnMajorKHR")
E(43, spv::CooperativeMatrixUse::MatrixAKHR, "MatrixAKHR")
E(43, spv::CooperativeMatrixUse::MatrixBKHR, "MatrixBKHR")
E(43, spv::CooperativeMatrixUse::MatrixAccumulatorKHR, "MatrixAccumulatorKHR")
E(44, spv::InitializationModeQualifier::InitOnDeviceReprogramINTEL, "InitOnDeviceReprogramINTEL")
E(44, spv::InitializationModeQualifier::InitOnDeviceResetINTEL, "InitOnDeviceResetINTEL")
E(45, spv::LoadCacheControl::UncachedINTEL, "UncachedINTEL")
E(45, spv::LoadCacheControl::CachedINTEL, "CachedINTEL")
E(45, spv::LoadCacheControl::StreamingINTEL, "StreamingINTEL")
E(45, spv::LoadCacheControl::InvalidateAfterReadINTEL, "InvalidateAfterReadINTEL")
E(45, spv::LoadCacheControl::ConstCachedINTEL, "ConstCachedINTEL")
E(46, spv::StoreCacheControl::UncachedINTEL, "UncachedINTEL")
E(46, spv::StoreCacheControl::WriteThroughINTEL, "WriteThroughINTEL")
E(46, spv::StoreCacheControl::WriteBackINTEL, "WriteBackINTEL")
E(46, spv::StoreCacheControl::StreamingINTEL, "StreamingINTEL")
O(0, spv::Op::OpNop, "OpNop")
O(0, spv::Op::OpUndef, "OpUndef")
O(0, spv::Op::OpSourceContinued, "OpSourceContinued")
O(0, spv::Op::OpSource, "OpSource")
O(0, spv::Op::OpSourceExtension, "OpSourceExtension")
O(0, spv::Op::OpName, "OpName")
O(0, spv::Op::OpMemberName, "OpMemberName")
O(0, spv::Op::OpString, "OpString")
O(0, spv::Op::OpLine, "OpLine")
O(0, spv::Op::OpExtension, "OpExtension")
O(0, spv::Op::OpExtInstImport, "OpExtInstImport")
O(0, spv::Op::OpExtInst, "OpExtInst")
O(0, spv::Op::OpMemoryModel, "OpMemoryModel")
O(0, spv::Op::OpEntryPoint, "OpEntryPoint")
O(0, spv::Op::OpExecutionMode, "OpExecutionMode")
O(0, spv::Op::OpCapability, "OpCapability")
O(0, spv::Op::OpTypeVoid, "OpTypeVoid")
O(0, spv::Op::OpTypeBool, "OpTypeBool")
O(0, spv::Op::OpTypeInt, "OpTypeInt")
O(0, spv::Op::OpTypeFloat, "OpTypeFloat")
O(0, spv::Op::OpTypeVector, "OpTypeVector")
O(0, spv::Op::OpTypeMatrix, "OpTypeMatrix")
O(0, spv::Op::OpTypeImage, "OpTypeImage")
O(0, spv::Op::OpTypeSampler, "OpTypeSampler")
O(0, spv::Op::OpTypeSampledImage, "OpTypeSampledImage")
O(0, spv::Op::OpTypeArray, "OpTypeArray")
O(0, spv::Op::OpTypeRuntimeArray, "OpTypeRuntimeArray")
O(0, spv::Op::OpTypeStruct, "OpTypeStruct")
O(0, spv::Op::OpTypeOpaque, "OpTypeOpaque")
O(0, spv::Op::OpTypePointer, "OpTypePointer")
O(0, spv::Op::OpTypeFunction, "OpTypeFunction")
O(0, spv::Op::OpTypeEvent, "OpTypeEvent")
O(0, spv::Op::OpTypeDeviceEvent, "OpTypeDeviceEvent")
O(0, spv::Op::OpTypeReserveId, "OpTypeReserveId")
O(0, spv::Op::OpTypeQueue, "OpTypeQueue")
O(0, spv::Op::OpTypePipe, "OpTypePipe")
O(0, spv::Op::OpTypeForwardPointer, "OpTypeForwardPointer")
O(0, spv::Op::OpConstantTrue, "OpConstantTrue")
O(0, spv::Op::OpConstantFalse, "OpConstantFalse")
O(0, spv::Op::OpConstant, "OpConstant")
O(0, spv::Op::OpConstantComposite, "OpConstantComposite")
O(0, spv::Op::OpConstantSampler, "OpConstantSampler")
O(0, spv::Op::OpConstantNull, "OpConstantNull")
O(0, spv::Op::OpSpecConstantTrue, "OpSpecConstantTrue")
O(0, spv::Op::OpSpecConstantFalse, "OpSpecConstantFalse")
O(0, spv::Op::OpSpecConstant, "OpSpecConstant")
O(0, spv::Op::OpSpecConstantComposite, "OpSpecConstantComposite")
O(0, spv::Op::OpSpecConstantOp, "OpSpecConstantOp")
O(0, spv::Op::OpFunction, "OpFunction")
O(0, spv::Op::OpFunctionParameter, "OpFunctionParameter")
O(0, spv::Op::OpFunctionEnd, "OpFunctionEnd")
O(0, spv::Op::OpFunctionCall, "OpFunctionCall")
O(0, spv::Op::OpVariable, "OpVariable")
O(0, spv::Op::OpImageTexelPointer, "OpImageTexelPointer")
O(0, spv::Op::OpLoad, "OpLoad")
O(0, spv::Op::OpStore, "OpStore")
O(0, spv::Op::OpCopyMemory, "OpCopyMemory")
O(0, spv::Op::OpCopyMemorySized, "OpCopyMemorySized")
O(0, spv::Op::OpAccessChain, "OpAccessChain")
O(0, spv::Op::OpInBoundsAccessChain, "OpInBoundsAccessChain")
O(0, spv::Op::OpPtrAccessChain, "OpPtrAccessChain")
O(0, spv::Op::OpArrayLength, "OpArrayLength")
O(0, spv::Op::OpGenericPtrMemSemantics, "OpGenericPtrMemSemantics")
O(0, spv::Op::OpInBoundsPtrAccessChain, "OpInBoundsPtrAccessChain")
O(0, spv::Op::OpDecorate, "OpDecorate")
O(0, spv::Op::OpMemberDecorate, "OpMemberDecorate")
O(0, spv::Op::OpDecorationGroup, "OpDecorationGroup")
O(0, spv::Op::OpGroupDecorate, "OpGroupDecorate")
O(0, spv::Op::OpGroupMemberDecorate, "OpGroupMemberDecorate")
O(0, spv::Op::OpVectorExtractDynamic, "OpVectorExtractDynamic")
O(0, spv::Op::OpVectorInsertDynamic, "OpVectorInsertDynamic")
O(0, spv::Op::OpVectorShuffle, "OpVectorShuffle")
O(0, spv::Op::OpCompositeConstruct, "OpCompositeConstruct")
O(0, spv::Op::OpCompositeExtract, "OpCompositeExtract")
O(0, spv::Op::OpCompositeInsert, "OpCompositeInsert")
O(0, spv::Op::OpCopyObject, "OpCopyObject")
O(0, spv::Op::OpTranspose, "OpTranspose")
O(0, spv::Op::OpSampledImage, "OpSampledImage")
O(0, spv::Op::OpImageSampleImplicitLod, "OpImageSampleImplicitLod")
O(0, spv::Op::OpImageSampleExplicitLod, "OpImageSampleExplicitLod")
O(0, spv::Op::OpImageSampleDrefImplicitLod, "OpImageSampleDrefImplicitLod")
O(0, spv::Op::OpImageSampleDrefExplicitLod, "OpImageSampleDrefExplicitLod")
O(0, spv::Op::OpImageSampleProjImplicitLod, "OpImageSampleProjImplicitLod")
O(0, spv::Op::OpImageSampleProjExplicitLod, "OpImageSampleProjExplicitLod")
O(0, spv::Op::OpImageSampleProjDrefImplicitLod, "OpImageSampleProjDrefImplicitLod")
O(0, spv::Op::OpImageSampleProjDrefExplicitLod, "OpImageSampleProjDrefExplicitLod")
O(0, spv::Op::OpImageFetch, "OpImageFetch")
O(0, spv::Op::OpImageGather, "OpImageGather")
O(0, spv::Op::OpImageDrefGather, "OpImageDrefGather")
O(0, spv::Op::OpImageRead, "OpImageRead")
O(0, spv::Op::OpImageWrite, "OpImageWrite")
O(0, spv::Op::OpImage, "OpImage")
O(0, spv::Op::OpImageQueryFormat, "OpImageQueryFormat")
O(0, spv::Op::OpImageQueryOrder, "OpImageQueryOrder")
O(0, spv::Op::OpImageQuerySizeLod, "OpImageQuerySizeLod")
O(0, spv::Op::OpImageQuerySize, "OpImageQuerySize")
O(0, spv::Op::OpImageQueryLod, "OpImageQueryLod")
O(0, spv::Op::OpImageQueryLevels, "OpImageQueryLevels")
O(0, spv::Op::OpImageQuerySamples, "OpImageQuerySamples")
O(0, spv::Op::OpConvertFToU, "OpConvertFToU")
O(0, spv::Op::OpConvertFToS, "OpConvertFToS")
O(0, spv::Op::OpConvertSToF, "OpConvertSToF")
O(0, spv::Op::OpConvertUToF, "OpConvertUToF")
O(0, spv::Op::OpUConvert, "OpUConvert")
O(0, spv::Op::OpSConvert, "OpSConvert")
O(0, spv::Op::OpFConvert, "OpFConvert")
O(0, spv::Op::OpQuantizeToF16, "OpQuantizeToF16")
O(0, spv::Op::OpConvertPtrToU, "OpConvertPtrToU")
O(0, spv::Op::OpSatConvertSToU, "OpSatConvertSToU")
O(0, spv::Op::OpSatConvertUToS, "OpSatConvertUToS")
O(0, spv::Op::OpConvertUToPtr, "OpConvertUToPtr")
O(0, spv::Op::OpPtrCastToGeneric, "OpPtrCastToGeneric")
O(0, spv::Op::OpGenericCastToPtr, "OpGenericCastToPtr")
O(0, spv::Op::OpGenericCastToPtrExplicit, "OpGenericCastToPtrExplicit")
O(0, spv::Op::OpBitcast, "OpBitcast")
O(0, spv::Op::OpSNegate, "OpSNegate")
O(0, spv::Op::OpFNegate, "OpFNegate")
O(0, spv::Op::OpIAdd, "OpIAdd")
O(0, spv::Op::OpFAdd, "OpFAdd")
O(0, spv::Op::OpISub, "OpISub")
O(0, spv::Op::OpFSub, "OpFSub")
O(0, spv::Op::OpIMul, "OpIMul")
O(0, spv::Op::OpFMul, "OpFMul")
O(0, spv::Op::OpUDiv, "OpUDiv")
O(0, spv::Op::OpSDiv, "OpSDiv")
O(0, spv::Op::OpFDiv, "OpFDiv")
O(0, spv::Op::OpUMod, "OpUMod")
O(0, spv::Op::OpSRem, "OpSRem")
O(0, spv::Op::OpSMod, "OpSMod")
O(0, spv::Op::OpFRem, "OpFRem")
O(0, spv::Op::OpFMod, "OpFMod")
O(0, spv::Op::OpVectorTimesScalar, "OpVectorTimesScalar")
O(0, spv::Op::OpMatrixTimesScalar, "OpMatrixTimesScalar")
O(0, spv::Op::OpVectorTimesMatrix, "OpVectorTimesMatrix")
O(0, spv::Op::OpMatrixTimesVector, "OpMatrixTimesVector")
O(0, spv::Op::OpMatrixTimesMatrix, "OpMatrixTimesMatrix")
O(0, spv::Op::OpOuterProduct, "OpOuterProduct")
O(0, spv::Op::OpDot, "OpDot")
O(0, spv::Op::OpIAddCarry, "OpIAddCarry")
O(0, spv::Op::OpISubBorrow, "OpISubBorrow")
O(0, spv::Op::OpUMulExtended, "OpUMulExtended")
O(0, spv::Op::OpSMulExtended, "OpSMulExtended")
O(0, spv::Op::OpAny, "OpAny")
O(0, spv::Op::OpAll, "OpAll")
O(0, spv::Op::OpIsNan, "OpIsNan")
O(0, spv::Op::OpIsInf, "OpIsInf")
O(0, spv::Op::OpIsFinite, "OpIsFinite")
O(0, spv::Op::OpIsNormal, "OpIsNormal")
O(0, spv::Op::OpSignBitSet, "OpSignBitSet")
O(0, spv::Op::OpLessOrGreater, "OpLessOrGreater")
O(0, spv::Op::OpOrdered, "OpOrdered")
O(0, spv::Op::OpUnordered, "OpUnordered")
O(0, spv::Op::OpLogicalEqual, "OpLogicalEqual")
O(0, spv::Op::OpLogicalNotEqual, "OpLogicalNotEqual")
O(0, spv::Op::OpLogicalOr, "OpLogicalOr")
O(0, spv::Op::OpLogicalAnd, "OpLogicalAnd")
O(0, spv::Op::OpLogicalNot, "OpLogicalNot")
O(0, spv::Op::OpSelect, "OpSelect")
O(0, spv::Op::OpIEqual, "OpIEqual")
O(0, spv::Op::OpINotEqual, "OpINotEqual")
O(0, spv::Op::OpUGreaterThan, "OpUGreaterThan")
O(0, spv::Op::OpSGreaterThan, "OpSGreaterThan")
O(0, spv::Op::OpUGreaterThanEqual, "OpUGreaterThanEqual")
O(0, spv::Op::OpSGreaterThanEqual, "OpSGreaterThanEqual")
O(0, spv::Op::OpULessThan, "OpULessThan")
O(0, spv::Op::OpSLessThan, "OpSLessThan")
O(0, spv::Op::OpULessThanEqual, "OpULessThanEqual")
O(0, spv::Op::OpSLessThanEqual, "OpSLessThanEqual")
O(0, spv::Op::OpFOrdEqual, "OpFOrdEqual")
O(0, spv::Op::OpFUnordEqual, "OpFUnordEqual")
O(0, spv::Op::OpFOrdNotEqual, "OpFOrdNotEqual")
O(0, spv::Op::OpFUnordNotEqual, "OpFUnordNotEqual")
O(0, spv::Op::OpFOrdLessThan, "OpFOrdLessThan")
O(0, spv::Op::OpFUnordLessThan, "OpFUnordLessThan")
O(0, spv::Op::OpFOrdGreaterThan, "OpFOrdGreaterThan")
O(0, spv::Op::OpFUnordGreaterThan, "OpFUnordGreaterThan")
O(0, spv::Op::OpFOrdLessThanEqual, "OpFOrdLessThanEqual")
O(0, spv::Op::OpFUnordLessThanEqual, "OpFUnordLessThanEqual")
O(0, spv::Op::OpFOrdGreaterThanEqual, "OpFOrdGreaterThanEqual")
O(0, spv::Op::OpFUnordGreaterThanEqual, "OpFUnordGreaterThanEqual")
O(0, spv::Op::OpShiftRightLogical, "OpShiftRightLogical")
O(0, spv::Op::OpShiftRightArithmetic, "OpShiftRightArithmetic")
O(0, spv::Op::OpShiftLeftLogical, "OpShiftLeftLogical")
O(0, spv::Op::OpBitwiseOr, "OpBitwiseOr")
O(0, spv::Op::OpBitwiseXor, "OpBitwiseXor")
O(0, spv::Op::OpBitwiseAnd, "OpBitwiseAnd")
O(0, spv::Op::OpNot, "OpNot")
O(0, spv::Op::OpBitFieldInsert, "OpBitFieldInsert")
O(0, spv::Op::OpBitFieldSExtract, "OpBitFieldSExtract")
O(0, spv::Op::OpBitFieldUExtract, "OpBitFieldUExtract")
O(0, spv::Op::OpBitReverse, "OpBitReverse")
O(0, spv::Op::OpBitCount, "OpBitCount")
O(0, spv::Op::OpDPdx, "OpDPdx")
O(0, spv::Op::OpDPdy, "OpDPdy")
O(0, spv::Op::OpFwidth, "OpFwidth")
O(0, spv::Op::OpDPdxFine, "OpDPdxFine")
O(0, spv::Op::OpDPdyFine, "OpDPdyFine")
O(0, spv::Op::OpFwidthFine, "OpFwidthFine")
O(0, spv::Op::OpDPdxCoarse, "OpDPdxCoarse")
O(0, spv::Op::OpDPdyCoarse, "OpDPdyCoarse")
O(0, spv::Op::OpFwidthCoarse, "OpFwidthCoarse")
O(0, spv::Op::OpEmitVertex, "OpEmitVertex")
O(0, spv::Op::OpEndPrimitive, "OpEndPrimitive")
O(0, spv::Op::OpEmitStreamVertex, "OpEmitStreamVertex")
O(0, spv::Op::OpEndStreamPrimitive, "OpEndStreamPrimitive")
O(0, spv::Op::OpControlBarrier, "OpControlBarrier")
O(0, spv::Op::OpMemoryBarrier, "OpMemoryBarrier")
O(0, spv::Op::OpAtomicLoad, "OpAtomicLoad")
O(0, spv::Op::OpAtomicStore, "OpAtomicStore")
O(0, spv::Op::OpAtomicExchange, "OpAtomicExchange")
O(0, spv::Op::OpAtomicCompareExchange, "OpAtomicCompareExchange")
O(0, spv::Op::OpAtomicCompareExchangeWeak, "OpAtomicCompareExchangeWeak")
O(0, spv::Op::OpAtomicIIncrement, "OpAtomicIIncrement")
O(0, spv::Op::OpAtomicIDecrement, "OpAtomicIDecrement")
O(0, spv::Op::OpAtomicIAdd, "OpAtomicIAdd")
O(0, spv::Op::OpAtomicISub, "OpAtomicISub")
O(0, spv::Op::OpAtomicSMin, "OpAtomicSMin")
O(0, spv::Op::OpAtomicUMin, "OpAtomicUMin")
O(0, spv::Op::OpAtomicSMax, "OpAtomicSMax")
O(0, spv::Op::OpAtomicUMax, "OpAtomicUMax")
O(0, spv::Op::OpAtomicAnd, "OpAtomicAnd")
O(0, spv::Op::OpAtomicOr, "OpAtomicOr")
O(0, spv::Op::OpAtomicXor, "OpAtomicXor")
O(0, spv::Op::OpPhi, "OpPhi")
O(0, spv::Op::OpLoopMerge, "OpLoopMerge")
O(0, spv::Op::OpSelectionMerge, "OpSelectionMerge")
O(0, spv::Op::OpLabel, "OpLabel")
O(0, spv::Op::OpBranch, "OpBranch")
O(0, spv::Op::OpBranchConditional, "OpBranchConditional")
O(0, spv::Op::OpSwitch, "OpSwitch")
O(0, spv::Op::OpKill, "OpKill")
O(0, spv::Op::OpReturn, "OpReturn")
O(0, spv::Op::OpReturnValue, "OpReturnValue")
O(0, spv::Op::OpUnreachable, "OpUnreachable")
O(0, spv::Op::OpLifetimeStart, "OpLifetimeStart")
O(0, spv::Op::OpLifetimeStop, "OpLifetimeStop")
O(0, spv::Op::OpGroupAsyncCopy, "OpGroupAsyncCopy")
O(0, spv::Op::OpGroupWaitEvents, "OpGroupWaitEvents")
O(0, spv::Op::OpGroupAll, "OpGroupAll")
O(0, spv::Op::OpGroupAny, "OpGroupAny")
O(0, spv::Op::OpGroupBroadcast, "OpGroupBroadcast")
O(0, spv::Op::OpGroupIAdd, "OpGroupIAdd")
O(0, spv::Op::OpGroupFAdd, "OpGroupFAdd")
O(0, spv::Op::OpGroupFMin, "OpGroupFMin")
O(0, spv::Op::OpGroupUMin, "OpGroupUMin")
O(0, spv::Op::OpGroupSMin, "OpGroupSMin")
O(0, spv::Op::OpGroupFMax, "OpGroupFMax")
O(0, spv::Op::OpGroupUMax, "OpGroupUMax")
O(0, spv::Op::OpGroupSMax, "OpGroupSMax")
O(0, spv::Op::OpReadPipe, "OpReadPipe")
O(0, spv::Op::OpWritePipe, "OpWritePipe")
O(0, spv::Op::OpReservedReadPipe, "OpReservedReadPipe")
O(0, spv::Op::OpReservedWritePipe, "OpReservedWritePipe")
O(0, spv::Op::OpReserveReadPipePackets, "OpReserveReadPipePackets")
O(0, spv::Op::OpReserveWritePipePackets, "OpReserveWritePipePackets")
O(0, spv::Op::OpCommitReadPipe, "OpCommitReadPipe")
O(0, spv::Op::OpCommitWritePipe, "OpCommitWritePipe")
O(0, spv::Op::OpIsValidReserveId, "OpIsValidReserveId")
O(0, spv::Op::OpGetNumPipePackets, "OpGetNumPipePackets")
O(0, spv::Op::OpGetMaxPipePackets, "OpGetMaxPipePackets")
O(0, spv::Op::OpGroupReserveReadPipePackets, "OpGroupReserveReadPipePackets")
O(0, spv::Op::OpGroupReserveWritePipePackets, "OpGroupReserveWritePipePackets")
O(0, spv::Op::OpGroupCommitReadPipe, "OpGroupCommitReadPipe")
O(0, spv::Op::OpGroupCommitWritePipe, "OpGroupCommitWritePipe")
O(0, spv::Op::OpEnqueueMarker, "OpEnqueueMarker")
O(0, spv::Op::OpEnqueueKernel, "OpEnqueueKernel")
O(0, spv::Op::OpGetKernelNDrangeSubGroupCount, "OpGetKernelNDrangeSubGroupCount")
O(0, spv::Op::OpGetKernelNDrangeMaxSubGroupSize, "OpGetKernelNDrangeMaxSubGroupSize")
O(0, spv::Op::OpGetKernelWorkGroupSize, "OpGetKernelWorkGroupSize")
O(0, spv::Op::OpGetKernelPreferredWorkGroupSizeMultiple, "OpGetKernelPreferredWorkGroupSizeMultiple")
O(0, spv::Op::OpRetainEvent, "OpRetainEvent")
O(0, spv::Op::OpReleaseEvent, "OpReleaseEvent")
O(0, spv::Op::OpCreateUserEvent, "OpCreateUserEvent")
O(0, spv::Op::OpIsValidEvent, "OpIsValidEvent")
O(0, spv::Op::OpSetUserEventStatus, "OpSetUserEventStatus")
O(0, spv::Op::OpCaptureEventProfilingInfo, "OpCaptureEventProfilingInfo")
O(0, spv::Op::OpGetDefaultQueue, "OpGetDefaultQueue")
O(0, spv::Op::OpBuildNDRange, "OpBuildNDRange")
O(0, spv::Op::OpImageSparseSampleImplicitLod, "OpImageSparseSampleImplicitLod")
O(0, spv::Op::OpImageSparseSampleExplicitLod, "OpImageSparseSampleExplicitLod")
O(0, spv::Op::OpImageSparseSampleDrefImplicitLod, "OpImageSparseSampleDrefImplicitLod")
O(0, spv::Op::OpImageSparseSampleDrefExplicitLod, "OpImageSparseSampleDrefExplicitLod")
O(0, spv::Op::OpImageSparseSampleProjImplicitLod, "OpImageSparseSampleProjImplicitLod")
O(0, spv::Op::OpImageSparseSampleProjExplicitLod, "OpImageSparseSampleProjExplicitLod")
O(0, spv::Op::OpImageSparseSampleProjDrefImplicitLod, "OpImageSparseSampleProjDrefImplicitLod")
O(0, spv::Op::OpImageSparseSampleProjDrefExplicitLod, "OpImageSparseSampleProjDrefExplicitLod")
O(0, spv::Op::OpImageSparseFetch, "OpImageSparseFetch")
O(0, spv::Op::OpImageSparseGather, "OpImageSparseGather")
O(0, spv::Op::OpImageSparseDrefGather, "OpImageSparseDrefGather")
O(0, spv::Op::OpImageSparseTexelsResident, "OpImageSparseTexelsResident")
O(0, spv::Op::OpNoLine, "OpNoLine")
O(0, spv::Op::OpAtomicFlagTestAndSet, "OpAtomicFlagTestAndSet")
O(0, spv::Op::OpAtomicFlagClear, "OpAtomicFlagClear")
O(0, spv::Op::OpImageSparseRead, "OpImageSparseRead")
O(0, spv::Op::OpSizeOf, "OpSizeOf")
O(0, spv::Op::OpTypePipeStorage, "OpTypePipeStorage")
O(0, spv::Op::OpConstantPipeStorage, "OpConstantPipeStorage")
O(0, spv::Op::OpCreatePipeFromPipeStorage, "OpCreatePipeFromPipeStorage")
O(0, spv::Op::OpGetKernelLocalSizeForSubgroupCount, "OpGetKernelLocalSizeForSubgroupCount")
O(0, spv::Op::OpGetKernelMaxNumSubgroups, "OpGetKernelMaxNumSubgroups")
O(0, spv::Op::OpTypeNamedBarrier, "OpTypeNamedBarrier")
O(0, spv::Op::OpNamedBarrierInitialize, "OpNamedBarrierInitialize")
O(0, spv::Op::OpMemoryNamedBarrier, "OpMemoryNamedBarrier")
O(0, spv::Op::OpModuleProcessed, "OpModuleProcessed")
O(0, spv::Op::OpExecutionModeId, "OpExecutionModeId")
O(0, spv::Op::OpDecorateId, "OpDecorateId")
O(0, spv::Op::OpGroupNonUniformElect, "OpGroupNonUniformElect")
O(0, spv::Op::OpGroupNonUniformAll, "OpGroupNonUniformAll")
O(0, spv::Op::OpGroupNonUniformAny, "OpGroupNonUniformAny")
O(0, spv::Op::OpGroupNonUniformAllEqual, "OpGroupNonUniformAllEqual")
O(0, spv::Op::OpGroupNonUniformBroadcast, "OpGroupNonUniformBroadcast")
O(0, spv::Op::OpGroupNonUniformBroadcastFirst, "OpGroupNonUniformBroadcastFirst")
O(0, spv::Op::OpGroupNonUniformBallot, "OpGroupNonUniformBallot")
O(0, spv::Op::OpGroupNonUniformInverseBallot, "OpGroupNonUniformInverseBallot")
O(0, spv::Op::OpGroupNonUniformBallotBitExtract, "OpGroupNonUniformBallotBitExtract")
O(0, spv::Op::OpGroupNonUniformBallotBitCount, "OpGroupNonUniformBallotBitCount")
O(0, spv::Op::OpGroupNonUniformBallotFindLSB, "OpGroupNonUniformBallotFindLSB")
O(0, spv::Op::OpGroupNonUniformBallotFindMSB, "OpGroupNonUniformBallotFindMSB")
O(0, spv::Op::OpGroupNonUniformShuffle, "OpGroupNonUniformShuffle")
O(0, spv::Op::OpGroupNonUniformShuffleXor, "OpGroupNonUniformShuffleXor")
O(0, spv::Op::OpGroupNonUniformShuffleUp, "OpGroupNonUniformShuffleUp")
O(0, spv::Op::OpGroupNonUniformShuffleDown, "OpGroupNonUniformShuffleDown")
O(0, spv::Op::OpGroupNonUniformIAdd, "OpGroupNonUniformIAdd")
O(0, spv::Op::OpGroupNonUniformFAdd, "OpGroupNonUniformFAdd")
O(0, spv::Op::OpGroupNonUniformIMul, "OpGroupNonUniformIMul")
O(0, spv::Op::OpGroupNonUniformFMul, "OpGroupNonUniformFMul")
O(0, spv::Op::OpGroupNonUniformSMin, "OpGroupNonUniformSMin")
O(0, spv::Op::OpGroupNonUniformUMin, "OpGroupNonUniformUMin")
O(0, spv::Op::OpGroupNonUniformFMin, "OpGroupNonUniformFMin")
O(0, spv::Op::OpGroupNonUniformSMax, "OpGroupNonUniformSMax")
O(0, spv::Op::OpGroupNonUniformUMax, "OpGroupNonUniformUMax")
O(0, spv::Op::OpGroupNonUniformFMax, "OpGroupNonUniformFMax")
O(0, spv::Op::OpGroupNonUniformBitwiseAnd, "OpGroupNonUniformBitwiseAnd")
O(0, spv::Op::OpGroupNonUniformBitwiseOr, "OpGroupNonUniformBitwiseOr")
O(0, spv::Op::OpGroupNonUniformBitwiseXor, "OpGroupNonUniformBitwiseXor")
O(0, spv::Op::OpGroupNonUniformLogicalAnd, "OpGroupNonUniformLogicalAnd")
O(0, spv::Op::OpGroupNonUniformLogicalOr, "OpGroupNonUniformLogicalOr")
O(0, spv::Op::OpGroupNonUniformLogicalXor, "OpGroupNonUniformLogicalXor")
O(0, spv::Op::OpGroupNonUniformQuadBroadcast, "OpGroupNonUniformQuadBroadcast")
O(0, spv::Op::OpGroupNonUniformQuadSwap, "OpGroupNonUniformQuadSwap")
O(0, spv::Op::OpCopyLogical, "OpCopyLogical")
O(0, spv::Op::OpPtrEqual, "OpPtrEqual")
O(0, spv::Op::OpPtrNotEqual, "OpPtrNotEqual")
O(0, spv::Op::OpPtrDiff, "OpPtrDiff")
O(0, spv::Op::OpColorAttachmentReadEXT, "OpColorAttachmentReadEXT")
O(0, spv::Op::OpDepthAttachmentReadEXT, "OpDepthAttachmentReadEXT")
O(0, spv::Op::OpStencilAttachmentReadEXT, "OpStencilAttachmentReadEXT")
O(0, spv::Op::OpTerminateInvocation, "OpTerminateInvocation")
O(0, spv::Op::OpSubgroupBallotKHR, "OpSubgroupBallotKHR")
O(0, spv::Op::OpSubgroupFirstInvocationKHR, "OpSubgroupFirstInvocationKHR")
O(0, spv::Op::OpSubgroupAllKHR, "OpSubgroupAllKHR")
O(0, spv::Op::OpSubgroupAnyKHR, "OpSubgroupAnyKHR")
O(0, spv::Op::OpSubgroupAllEqualKHR, "OpSubgroupAllEqualKHR")
O(0, spv::Op::OpGroupNonUniformRotateKHR, "OpGroupNonUniformRotateKHR")
O(0, spv::Op::OpSubgroupReadInvocationKHR, "OpSubgroupReadInvocationKHR")
O(0, spv::Op::OpTraceRayKHR, "OpTraceRayKHR")
O(0, spv::Op::OpExecuteCallableKHR, "OpExecuteCallableKHR")
O(0, spv::Op::OpConvertUToAccelerationStructureKHR, "OpConvertUToAccelerationStructureKHR")
O(0, spv::Op::OpIgnoreIntersectionKHR, "OpIgnoreIntersectionKHR")
O(0, spv::Op::OpTerminateRayKHR, "OpTerminateRayKHR")
O(0, spv::Op::OpSDotKHR, "OpSDotKHR")
O(0, spv::Op::OpUDotKHR, "OpUDotKHR")
O(0, spv::Op::OpSUDotKHR, "OpSUDotKHR")
O(0, spv::Op::OpSDotAccSatKHR, "OpSDotAccSatKHR")
O(0, spv::Op::OpUDotAccSatKHR, "OpUDotAccSatKHR")
O(0, spv::Op::OpSUDotAccSatKHR, "OpSUDotAccSatKHR")
O(0, spv::Op::OpTypeCooperativeMatrixKHR, "OpTypeCooperativeMatrixKHR")
O(0, spv::Op::OpCooperativeMatrixLoadKHR, "OpCooperativeMatrixLoadKHR")
O(0, spv::Op::OpCooperativeMatrixStoreKHR, "OpCooperativeMatrixStoreKHR")
O(0, spv::Op::OpCooperativeMatrixMulAddKHR, "OpCooperativeMatrixMulAddKHR")
O(0, spv::Op::OpCooperativeMatrixLengthKHR, "OpCooperativeMatrixLengthKHR")
O(0, spv::Op::OpTypeRayQueryKHR, "OpTypeRayQueryKHR")
O(0, spv::Op::OpRayQueryInitializeKHR, "OpRayQueryInitializeKHR")
O(0, spv::Op::OpRayQueryTerminateKHR, "OpRayQueryTerminateKHR")
O(0, spv::Op::OpRayQueryGenerateIntersectionKHR, "OpRayQueryGenerateIntersectionKHR")
O(0, spv::Op::OpRayQueryConfirmIntersectionKHR, "OpRayQueryConfirmIntersectionKHR")
O(0, spv::Op::OpRayQueryProceedKHR, "OpRayQueryProceedKHR")
O(0, spv::Op::OpRayQueryGetIntersectionTypeKHR, "OpRayQueryGetIntersectionTypeKHR")
O(0, spv::Op::OpImageSampleWeightedQCOM, "OpImageSampleWeightedQCOM")
O(0, spv::Op::OpImageBoxFilterQCOM, "OpImageBoxFilterQCOM")
O(0, spv::Op::OpImageBlockMatchSSDQCOM, "OpImageBlockMatchSSDQCOM")
O(0, spv::Op::OpImageBlockMatchSADQCOM, "OpImageBlockMatchSADQCOM")
O(0, spv::Op::OpGroupIAddNonUniformAMD, "OpGroupIAddNonUniformAMD")
O(0, spv::Op::OpGroupFAddNonUniformAMD, "OpGroupFAddNonUniformAMD")
O(0, spv::Op::OpGroupFMinNonUniformAMD, "OpGroupFMinNonUniformAMD")
O(0, spv::Op::OpGroupUMinNonUniformAMD, "OpGroupUMinNonUniformAMD")
O(0, spv::Op::OpGroupSMinNonUniformAMD, "OpGroupSMinNonUniformAMD")
O(0, spv::Op::OpGroupFMaxNonUniformAMD, "OpGroupFMaxNonUniformAMD")
O(0, spv::Op::OpGroupUMaxNonUniformAMD, "OpGroupUMaxNonUniformAMD")
O(0, spv::Op::OpGroupSMaxNonUniformAMD, "OpGroupSMaxNonUniformAMD")
O(0, spv::Op::OpFragmentMaskFetchAMD, "OpFragmentMaskFetchAMD")
O(0, spv::Op::OpFragmentFetchAMD, "OpFragmentFetchAMD")
O(0, spv::Op::OpReadClockKHR, "OpReadClockKHR")
O(0, spv::Op::OpFinalizeNodePayloadsAMDX, "OpFinalizeNodePayloadsAMDX")
O(0, spv::Op::OpFinishWritingNodePayloadAMDX, "OpFinishWritingNodePayloadAMDX")
O(0, spv::Op::OpInitializeNodePayloadsAMDX, "OpInitializeNodePayloadsAMDX")
O(0, spv::Op::OpHitObjectRecordHitMotionNV, "OpHitObjectRecordHitMotionNV")
O(0, spv::Op::OpHitObjectRecordHitWithIndexMotionNV, "OpHitObjectRecordHitWithIndexMotionNV")
O(0, spv::Op::OpHitObjectRecordMissMotionNV, "OpHitObjectRecordMissMotionNV")
O(0, spv::Op::OpHitObjectGetWorldToObjectNV, "OpHitObjectGetWorldToObjectNV")
O(0, spv::Op::OpHitObjectGetObjectToWorldNV, "OpHitObjectGetObjectToWorldNV")
O(0, spv::Op::OpHitObjectGetObjectRayDirectionNV, "OpHitObjectGetObjectRayDirectionNV")
O(0, spv::Op::OpHitObjectGetObjectRayOriginNV, "OpHitObjectGetObjectRayOriginNV")
O(0, spv::Op::OpHitObjectTraceRayMotionNV, "OpHitObjectTraceRayMotionNV")
O(0, spv::Op::OpHitObjectGetShaderRecordBufferHandleNV, "OpHitObjectGetShaderRecordBufferHandleNV")
O(0, spv::Op::OpHitObjectGetShaderBindingTableRecordIndexNV, "OpHitObjectGetShaderBindingTableRecordIndexNV")
O(0, spv::Op::OpHitObjectRecordEmptyNV, "OpHitObjectRecordEmptyNV")
O(0, spv::Op::OpHitObjectTraceRayNV, "OpHitObjectTraceRayNV")
O(0, spv::Op::OpHitObjectRecordHitNV, "OpHitObjectRecordHitNV")
O(0, spv::Op::OpHitObjectRecordHitWithIndexNV, "OpHitObjectRecordHitWithIndexNV")
O(0, spv::Op::OpHitObjectRecordMissNV, "OpHitObjectRecordMissNV")
O(0, spv::Op::OpHitObjectExecuteShaderNV, "OpHitObjectExecuteShaderNV")
O(0, spv::Op::OpHitObjectGetCurrentTimeNV, "OpHitObjectGetCurrentTimeNV")
O(0, spv::Op::OpHitObjectGetAttributesNV, "OpHitObjectGetAttributesNV")
O(0, spv::Op::OpHitObjectGetHitKindNV, "OpHitObjectGetHitKindNV")
O(0, spv::Op::OpHitObjectGetPrimitiveIndexNV, "OpHitObjectGetPrimitiveIndexNV")
O(0, spv::Op::OpHitObjectGetGeometryIndexNV, "OpHitObjectGetGeometryIndexNV")
O(0, spv::Op::OpHitObjectGetInstanceIdNV, "OpHitObjectGetInstanceIdNV")
O(0, spv::Op::OpHitObjectGetInstanceCustomIndexNV, "OpHitObjectGetInstanceCustomIndexNV")
O(0, spv::Op::OpHitObjectGetWorldRayDirectionNV, "OpHitObjectGetWorldRayDirectionNV")
O(0, spv::Op::OpHitObjectGetWorldRayOriginNV, "OpHitObjectGetWorldRayOriginNV")
O(0, spv::Op::OpHitObjectGetRayTMaxNV, "OpHitObjectGetRayTMaxNV")
O(0, spv::Op::OpHitObjectGetRayTMinNV, "OpHitObjectGetRayTMinNV")
O(0, spv::Op::OpHitObjectIsEmptyNV, "OpHitObjectIsEmptyNV")
O(0, spv::Op::OpHitObjectIsHitNV, "OpHitObjectIsHitNV")
O(0, spv::Op::OpHitObjectIsMissNV, "OpHitObjectIsMissNV")
O(0, spv::Op::OpReorderThreadWithHitObjectNV, "OpReorderThreadWithHitObjectNV")
O(0, spv::Op::OpReorderThreadWithHintNV, "OpReorderThreadWithHintNV")
O(0, spv::Op::OpTypeHitObjectNV, "OpTypeHitObjectNV")
O(0, spv::Op::OpImageSampleFootprintNV, "OpImageSampleFootprintNV")
O(0, spv::Op::OpEmitMeshTasksEXT, "OpEmitMeshTasksEXT")
O(0, spv::Op::OpSetMeshOutputsEXT, "OpSetMeshOutputsEXT")
O(0, spv::Op::OpGroupNonUniformPartitionNV, "OpGroupNonUniformPartitionNV")
O(0, spv::Op::OpWritePackedPrimitiveIndices4x8NV, "OpWritePackedPrimitiveIndices4x8NV")
O(0, spv::Op::OpReportIntersectionKHR, "OpReportIntersectionKHR")
O(0, spv::Op::OpIgnoreIntersectionNV, "OpIgnoreIntersectionNV")
O(0, spv::Op::OpTerminateRayNV, "OpTerminateRayNV")
O(0, spv::Op::OpTraceNV, "OpTraceNV")
O(0, spv::Op::OpTraceMotionNV, "OpTraceMotionNV")
O(0, spv::Op::OpTraceRayMotionNV, "OpTraceRayMotionNV")
O(0, spv::Op::OpRayQueryGetIntersectionTriangleVertexPositionsKHR, "OpRayQueryGetIntersectionTriangleVertexPositionsKHR")
O(0, spv::Op::OpTypeAccelerationStructureKHR, "OpTypeAccelerationStructureKHR")
O(0, spv::Op::OpExecuteCallableNV, "OpExecuteCallableNV")
O(0, spv::Op::OpTypeCooperativeMatrixNV, "OpTypeCooperativeMatrixNV")
O(0, spv::Op::OpCooperativeMatrixLoadNV, "OpCooperativeMatrixLoadNV")
O(0, spv::Op::OpCooperativeMatrixStoreNV, "OpCooperativeMatrixStoreNV")
O(0, spv::Op::OpCooperativeMatrixMulAddNV, "OpCooperativeMatrixMulAddNV")
O(0, spv::Op::OpCooperativeMatrixLengthNV, "OpCooperativeMatrixLengthNV")
O(0, spv::Op::OpBeginInvocationInterlockEXT, "OpBeginInvocationInterlockEXT")
O(0, spv::Op::OpEndInvocationInterlockEXT, "OpEndInvocationInterlockEXT")
O(0, spv::Op::OpDemoteToHelperInvocationEXT, "OpDemoteToHelperInvocationEXT")
O(0, spv::Op::OpIsHelperInvocationEXT, "OpIsHelperInvocationEXT")
O(0, spv::Op::OpConvertUToImageNV, "OpConvertUToImageNV")
O(0, spv::Op::OpConvertUToSamplerNV, "OpConvertUToSamplerNV")
O(0, spv::Op::OpConvertImageToUNV, "OpConvertImageToUNV")
O(0, spv::Op::OpConvertSamplerToUNV, "OpConvertSamplerToUNV")
O(0, spv::Op::OpConvertUToSampledImageNV, "OpConvertUToSampledImageNV")
O(0, spv::Op::OpConvertSampledImageToUNV, "OpConvertSampledImageToUNV")
O(0, spv::Op::OpSamplerImageAddressingModeNV, "OpSamplerImageAddressingModeNV")
O(0, spv::Op::OpSubgroupShuffleINTEL, "OpSubgroupShuffleINTEL")
O(0, spv::Op::OpSubgroupShuffleDownINTEL, "OpSubgroupShuffleDownINTEL")
O(0, spv::Op::OpSubgroupShuffleUpINTEL, "OpSubgroupShuffleUpINTEL")
O(0, spv::Op::OpSubgroupShuffleXorINTEL, "OpSubgroupShuffleXorINTEL")
O(0, spv::Op::OpSubgroupBlockReadINTEL, "OpSubgroupBlockReadINTEL")
O(0, spv::Op::OpSubgroupBlockWriteINTEL, "OpSubgroupBlockWriteINTEL")
O(0, spv::Op::OpSubgroupImageBlockReadINTEL, "OpSubgroupImageBlockReadINTEL")
O(0, spv::Op::OpSubgroupImageBlockWriteINTEL, "OpSubgroupImageBlockWriteINTEL")
O(0, spv::Op::OpSubgroupImageMediaBlockReadINTEL, "OpSubgroupImageMediaBlockReadINTEL")
O(0, spv::Op::OpSubgroupImageMediaBlockWriteINTEL, "OpSubgroupImageMediaBlockWriteINTEL")
O(0, spv::Op::OpUCountLeadingZerosINTEL, "OpUCountLeadingZerosINTEL")
O(0, spv::Op::OpUCountTrailingZerosINTEL, "OpUCountTrailingZerosINTEL")
O(0, spv::Op::OpAbsISubINTEL, "OpAbsISubINTEL")
O(0, spv::Op::OpAbsUSubINTEL, "OpAbsUSubINTEL")
O(0, spv::Op::OpIAddSatINTEL, "OpIAddSatINTEL")
O(0, spv::Op::OpUAddSatINTEL, "OpUAddSatINTEL")
O(0, spv::Op::OpIAverageINTEL, "OpIAverageINTEL")
O(0, spv::Op::OpUAverageINTEL, "OpUAverageINTEL")
O(0, spv::Op::OpIAverageRoundedINTEL, "OpIAverageRoundedINTEL")
O(0, spv::Op::OpUAverageRoundedINTEL, "OpUAverageRoundedINTEL")
O(0, spv::Op::OpISubSatINTEL, "OpISubSatINTEL")
O(0, spv::Op::OpUSubSatINTEL, "OpUSubSatINTEL")
O(0, spv::Op::OpIMul32x16INTEL, "OpIMul32x16INTEL")
O(0, spv::Op::OpUMul32x16INTEL, "OpUMul32x16INTEL")
O(0, spv::Op::OpConstantFunctionPointerINTEL, "OpConstantFunctionPointerINTEL")
O(0, spv::Op::OpFunctionPointerCallINTEL, "OpFunctionPointerCallINTEL")
O(0, spv::Op::OpAsmTargetINTEL, "OpAsmTargetINTEL")
O(0, spv::Op::OpAsmINTEL, "OpAsmINTEL")
O(0, spv::Op::OpAsmCallINTEL, "OpAsmCallINTEL")
O(0, spv::Op::OpAtomicFMinEXT, "OpAtomicFMinEXT")
O(0, spv::Op::OpAtomicFMaxEXT, "OpAtomicFMaxEXT")
O(0, spv::Op::OpAssumeTrueKHR, "OpAssumeTrueKHR")
O(0, spv::Op::OpExpectKHR, "OpExpectKHR")
O(0, spv::Op::OpDecorateString, "OpDecorateString")
O(0, spv::Op::OpMemberDecorateString, "OpMemberDecorateString")
O(0, spv::Op::OpVmeImageINTEL, "OpVmeImageINTEL")
O(0, spv::Op::OpTypeVmeImageINTEL, "OpTypeVmeImageINTEL")
O(0, spv::Op::OpTypeAvcImePayloadINTEL, "OpTypeAvcImePayloadINTEL")
O(0, spv::Op::OpTypeAvcRefPayloadINTEL, "OpTypeAvcRefPayloadINTEL")
O(0, spv::Op::OpTypeAvcSicPayloadINTEL, "OpTypeAvcSicPayloadINTEL")
O(0, spv::Op::OpTypeAvcMcePayloadINTEL, "OpTypeAvcMcePayloadINTEL")
O(0, spv::Op::OpTypeAvcMceResultINTEL, "OpTypeAvcMceResultINTEL")
O(0, spv::Op::OpTypeAvcImeResultINTEL, "OpTypeAvcImeResultINTEL")
O(0, spv::Op::OpTypeAvcImeResultSingleReferenceStreamoutINTEL, "OpTypeAvcImeResultSingleReferenceStreamoutINTEL")
O(0, spv::Op::OpTypeAvcImeResultDualReferenceStreamoutINTEL, "OpTypeAvcImeResultDualReferenceStreamoutINTEL")
O(0, spv::Op::OpTypeAvcImeSingleReferenceStreaminINTEL, "OpTypeAvcImeSingleReferenceStreaminINTEL")
O(0, spv::Op::OpTypeAvcImeDualReferenceStreaminINTEL, "OpTypeAvcImeDualReferenceStreaminINTEL")
O(0, spv::Op::OpTypeAvcRefResultINTEL, "OpTypeAvcRefResultINTEL")
O(0, spv::Op::OpTypeAvcSicResultINTEL, "OpTypeAvcSicResultINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultInterBaseMultiReferencePenaltyINTEL, "OpSubgroupAvcMceGetDefaultInterBaseMultiReferencePenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceSetInterBaseMultiReferencePenaltyINTEL, "OpSubgroupAvcMceSetInterBaseMultiReferencePenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultInterShapePenaltyINTEL, "OpSubgroupAvcMceGetDefaultInterShapePenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceSetInterShapePenaltyINTEL, "OpSubgroupAvcMceSetInterShapePenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultInterDirectionPenaltyINTEL, "OpSubgroupAvcMceGetDefaultInterDirectionPenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceSetInterDirectionPenaltyINTEL, "OpSubgroupAvcMceSetInterDirectionPenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultIntraLumaShapePenaltyINTEL, "OpSubgroupAvcMceGetDefaultIntraLumaShapePenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultInterMotionVectorCostTableINTEL, "OpSubgroupAvcMceGetDefaultInterMotionVectorCostTableINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultHighPenaltyCostTableINTEL, "OpSubgroupAvcMceGetDefaultHighPenaltyCostTableINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultMediumPenaltyCostTableINTEL, "OpSubgroupAvcMceGetDefaultMediumPenaltyCostTableINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultLowPenaltyCostTableINTEL, "OpSubgroupAvcMceGetDefaultLowPenaltyCostTableINTEL")
O(0, spv::Op::OpSubgroupAvcMceSetMotionVectorCostFunctionINTEL, "OpSubgroupAvcMceSetMotionVectorCostFunctionINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultIntraLumaModePenaltyINTEL, "OpSubgroupAvcMceGetDefaultIntraLumaModePenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultNonDcLumaIntraPenaltyINTEL, "OpSubgroupAvcMceGetDefaultNonDcLumaIntraPenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetDefaultIntraChromaModeBasePenaltyINTEL, "OpSubgroupAvcMceGetDefaultIntraChromaModeBasePenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcMceSetAcOnlyHaarINTEL, "OpSubgroupAvcMceSetAcOnlyHaarINTEL")
O(0, spv::Op::OpSubgroupAvcMceSetSourceInterlacedFieldPolarityINTEL, "OpSubgroupAvcMceSetSourceInterlacedFieldPolarityINTEL")
O(0, spv::Op::OpSubgroupAvcMceSetSingleReferenceInterlacedFieldPolarityINTEL, "OpSubgroupAvcMceSetSingleReferenceInterlacedFieldPolarityINTEL")
O(0, spv::Op::OpSubgroupAvcMceSetDualReferenceInterlacedFieldPolaritiesINTEL, "OpSubgroupAvcMceSetDualReferenceInterlacedFieldPolaritiesINTEL")
O(0, spv::Op::OpSubgroupAvcMceConvertToImePayloadINTEL, "OpSubgroupAvcMceConvertToImePayloadINTEL")
O(0, spv::Op::OpSubgroupAvcMceConvertToImeResultINTEL, "OpSubgroupAvcMceConvertToImeResultINTEL")
O(0, spv::Op::OpSubgroupAvcMceConvertToRefPayloadINTEL, "OpSubgroupAvcMceConvertToRefPayloadINTEL")
O(0, spv::Op::OpSubgroupAvcMceConvertToRefResultINTEL, "OpSubgroupAvcMceConvertToRefResultINTEL")
O(0, spv::Op::OpSubgroupAvcMceConvertToSicPayloadINTEL, "OpSubgroupAvcMceConvertToSicPayloadINTEL")
O(0, spv::Op::OpSubgroupAvcMceConvertToSicResultINTEL, "OpSubgroupAvcMceConvertToSicResultINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetMotionVectorsINTEL, "OpSubgroupAvcMceGetMotionVectorsINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetInterDistortionsINTEL, "OpSubgroupAvcMceGetInterDistortionsINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetBestInterDistortionsINTEL, "OpSubgroupAvcMceGetBestInterDistortionsINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetInterMajorShapeINTEL, "OpSubgroupAvcMceGetInterMajorShapeINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetInterMinorShapeINTEL, "OpSubgroupAvcMceGetInterMinorShapeINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetInterDirectionsINTEL, "OpSubgroupAvcMceGetInterDirectionsINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetInterMotionVectorCountINTEL, "OpSubgroupAvcMceGetInterMotionVectorCountINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetInterReferenceIdsINTEL, "OpSubgroupAvcMceGetInterReferenceIdsINTEL")
O(0, spv::Op::OpSubgroupAvcMceGetInterReferenceInterlacedFieldPolaritiesINTEL, "OpSubgroupAvcMceGetInterReferenceInterlacedFieldPolaritiesINTEL")
O(0, spv::Op::OpSubgroupAvcImeInitializeINTEL, "OpSubgroupAvcImeInitializeINTEL")
O(0, spv::Op::OpSubgroupAvcImeSetSingleReferenceINTEL, "OpSubgroupAvcImeSetSingleReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcImeSetDualReferenceINTEL, "OpSubgroupAvcImeSetDualReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcImeRefWindowSizeINTEL, "OpSubgroupAvcImeRefWindowSizeINTEL")
O(0, spv::Op::OpSubgroupAvcImeAdjustRefOffsetINTEL, "OpSubgroupAvcImeAdjustRefOffsetINTEL")
O(0, spv::Op::OpSubgroupAvcImeConvertToMcePayloadINTEL, "OpSubgroupAvcImeConvertToMcePayloadINTEL")
O(0, spv::Op::OpSubgroupAvcImeSetMaxMotionVectorCountINTEL, "OpSubgroupAvcImeSetMaxMotionVectorCountINTEL")
O(0, spv::Op::OpSubgroupAvcImeSetUnidirectionalMixDisableINTEL, "OpSubgroupAvcImeSetUnidirectionalMixDisableINTEL")
O(0, spv::Op::OpSubgroupAvcImeSetEarlySearchTerminationThresholdINTEL, "OpSubgroupAvcImeSetEarlySearchTerminationThresholdINTEL")
O(0, spv::Op::OpSubgroupAvcImeSetWeightedSadINTEL, "OpSubgroupAvcImeSetWeightedSadINTEL")
O(0, spv::Op::OpSubgroupAvcImeEvaluateWithSingleReferenceINTEL, "OpSubgroupAvcImeEvaluateWithSingleReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcImeEvaluateWithDualReferenceINTEL, "OpSubgroupAvcImeEvaluateWithDualReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminINTEL, "OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminINTEL")
O(0, spv::Op::OpSubgroupAvcImeEvaluateWithDualReferenceStreaminINTEL, "OpSubgroupAvcImeEvaluateWithDualReferenceStreaminINTEL")
O(0, spv::Op::OpSubgroupAvcImeEvaluateWithSingleReferenceStreamoutINTEL, "OpSubgroupAvcImeEvaluateWithSingleReferenceStreamoutINTEL")
O(0, spv::Op::OpSubgroupAvcImeEvaluateWithDualReferenceStreamoutINTEL, "OpSubgroupAvcImeEvaluateWithDualReferenceStreamoutINTEL")
O(0, spv::Op::OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminoutINTEL, "OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminoutINTEL")
O(0, spv::Op::OpSubgroupAvcImeEvaluateWithDualReferenceStreaminoutINTEL, "OpSubgroupAvcImeEvaluateWithDualReferenceStreaminoutINTEL")
O(0, spv::Op::OpSubgroupAvcImeConvertToMceResultINTEL, "OpSubgroupAvcImeConvertToMceResultINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetSingleReferenceStreaminINTEL, "OpSubgroupAvcImeGetSingleReferenceStreaminINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetDualReferenceStreaminINTEL, "OpSubgroupAvcImeGetDualReferenceStreaminINTEL")
O(0, spv::Op::OpSubgroupAvcImeStripSingleReferenceStreamoutINTEL, "OpSubgroupAvcImeStripSingleReferenceStreamoutINTEL")
O(0, spv::Op::OpSubgroupAvcImeStripDualReferenceStreamoutINTEL, "OpSubgroupAvcImeStripDualReferenceStreamoutINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeMotionVectorsINTEL, "OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeMotionVectorsINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeDistortionsINTEL, "OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeDistortionsINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeReferenceIdsINTEL, "OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeReferenceIdsINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeMotionVectorsINTEL, "OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeMotionVectorsINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeDistortionsINTEL, "OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeDistortionsINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeReferenceIdsINTEL, "OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeReferenceIdsINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetBorderReachedINTEL, "OpSubgroupAvcImeGetBorderReachedINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetTruncatedSearchIndicationINTEL, "OpSubgroupAvcImeGetTruncatedSearchIndicationINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetUnidirectionalEarlySearchTerminationINTEL, "OpSubgroupAvcImeGetUnidirectionalEarlySearchTerminationINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetWeightingPatternMinimumMotionVectorINTEL, "OpSubgroupAvcImeGetWeightingPatternMinimumMotionVectorINTEL")
O(0, spv::Op::OpSubgroupAvcImeGetWeightingPatternMinimumDistortionINTEL, "OpSubgroupAvcImeGetWeightingPatternMinimumDistortionINTEL")
O(0, spv::Op::OpSubgroupAvcFmeInitializeINTEL, "OpSubgroupAvcFmeInitializeINTEL")
O(0, spv::Op::OpSubgroupAvcBmeInitializeINTEL, "OpSubgroupAvcBmeInitializeINTEL")
O(0, spv::Op::OpSubgroupAvcRefConvertToMcePayloadINTEL, "OpSubgroupAvcRefConvertToMcePayloadINTEL")
O(0, spv::Op::OpSubgroupAvcRefSetBidirectionalMixDisableINTEL, "OpSubgroupAvcRefSetBidirectionalMixDisableINTEL")
O(0, spv::Op::OpSubgroupAvcRefSetBilinearFilterEnableINTEL, "OpSubgroupAvcRefSetBilinearFilterEnableINTEL")
O(0, spv::Op::OpSubgroupAvcRefEvaluateWithSingleReferenceINTEL, "OpSubgroupAvcRefEvaluateWithSingleReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcRefEvaluateWithDualReferenceINTEL, "OpSubgroupAvcRefEvaluateWithDualReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcRefEvaluateWithMultiReferenceINTEL, "OpSubgroupAvcRefEvaluateWithMultiReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcRefEvaluateWithMultiReferenceInterlacedINTEL, "OpSubgroupAvcRefEvaluateWithMultiReferenceInterlacedINTEL")
O(0, spv::Op::OpSubgroupAvcRefConvertToMceResultINTEL, "OpSubgroupAvcRefConvertToMceResultINTEL")
O(0, spv::Op::OpSubgroupAvcSicInitializeINTEL, "OpSubgroupAvcSicInitializeINTEL")
O(0, spv::Op::OpSubgroupAvcSicConfigureSkcINTEL, "OpSubgroupAvcSicConfigureSkcINTEL")
O(0, spv::Op::OpSubgroupAvcSicConfigureIpeLumaINTEL, "OpSubgroupAvcSicConfigureIpeLumaINTEL")
O(0, spv::Op::OpSubgroupAvcSicConfigureIpeLumaChromaINTEL, "OpSubgroupAvcSicConfigureIpeLumaChromaINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetMotionVectorMaskINTEL, "OpSubgroupAvcSicGetMotionVectorMaskINTEL")
O(0, spv::Op::OpSubgroupAvcSicConvertToMcePayloadINTEL, "OpSubgroupAvcSicConvertToMcePayloadINTEL")
O(0, spv::Op::OpSubgroupAvcSicSetIntraLumaShapePenaltyINTEL, "OpSubgroupAvcSicSetIntraLumaShapePenaltyINTEL")
O(0, spv::Op::OpSubgroupAvcSicSetIntraLumaModeCostFunctionINTEL, "OpSubgroupAvcSicSetIntraLumaModeCostFunctionINTEL")
O(0, spv::Op::OpSubgroupAvcSicSetIntraChromaModeCostFunctionINTEL, "OpSubgroupAvcSicSetIntraChromaModeCostFunctionINTEL")
O(0, spv::Op::OpSubgroupAvcSicSetBilinearFilterEnableINTEL, "OpSubgroupAvcSicSetBilinearFilterEnableINTEL")
O(0, spv::Op::OpSubgroupAvcSicSetSkcForwardTransformEnableINTEL, "OpSubgroupAvcSicSetSkcForwardTransformEnableINTEL")
O(0, spv::Op::OpSubgroupAvcSicSetBlockBasedRawSkipSadINTEL, "OpSubgroupAvcSicSetBlockBasedRawSkipSadINTEL")
O(0, spv::Op::OpSubgroupAvcSicEvaluateIpeINTEL, "OpSubgroupAvcSicEvaluateIpeINTEL")
O(0, spv::Op::OpSubgroupAvcSicEvaluateWithSingleReferenceINTEL, "OpSubgroupAvcSicEvaluateWithSingleReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcSicEvaluateWithDualReferenceINTEL, "OpSubgroupAvcSicEvaluateWithDualReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcSicEvaluateWithMultiReferenceINTEL, "OpSubgroupAvcSicEvaluateWithMultiReferenceINTEL")
O(0, spv::Op::OpSubgroupAvcSicEvaluateWithMultiReferenceInterlacedINTEL, "OpSubgroupAvcSicEvaluateWithMultiReferenceInterlacedINTEL")
O(0, spv::Op::OpSubgroupAvcSicConvertToMceResultINTEL, "OpSubgroupAvcSicConvertToMceResultINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetIpeLumaShapeINTEL, "OpSubgroupAvcSicGetIpeLumaShapeINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetBestIpeLumaDistortionINTEL, "OpSubgroupAvcSicGetBestIpeLumaDistortionINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetBestIpeChromaDistortionINTEL, "OpSubgroupAvcSicGetBestIpeChromaDistortionINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetPackedIpeLumaModesINTEL, "OpSubgroupAvcSicGetPackedIpeLumaModesINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetIpeChromaModeINTEL, "OpSubgroupAvcSicGetIpeChromaModeINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetPackedSkcLumaCountThresholdINTEL, "OpSubgroupAvcSicGetPackedSkcLumaCountThresholdINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetPackedSkcLumaSumThresholdINTEL, "OpSubgroupAvcSicGetPackedSkcLumaSumThresholdINTEL")
O(0, spv::Op::OpSubgroupAvcSicGetInterRawSadsINTEL, "OpSubgroupAvcSicGetInterRawSadsINTEL")
O(0, spv::Op::OpVariableLengthArrayINTEL, "OpVariableLengthArrayINTEL")
O(0, spv::Op::OpSaveMemoryINTEL, "OpSaveMemoryINTEL")
O(0, spv::Op::OpRestoreMemoryINTEL, "OpRestoreMemoryINTEL")
O(0, spv::Op::OpArbitraryFloatSinCosPiINTEL, "OpArbitraryFloatSinCosPiINTEL")
O(0, spv::Op::OpArbitraryFloatCastINTEL, "OpArbitraryFloatCastINTEL")
O(0, spv::Op::OpArbitraryFloatCastFromIntINTEL, "OpArbitraryFloatCastFromIntINTEL")
O(0, spv::Op::OpArbitraryFloatCastToIntINTEL, "OpArbitraryFloatCastToIntINTEL")
O(0, spv::Op::OpArbitraryFloatAddINTEL, "OpArbitraryFloatAddINTEL")
O(0, spv::Op::OpArbitraryFloatSubINTEL, "OpArbitraryFloatSubINTEL")
O(0, spv::Op::OpArbitraryFloatMulINTEL, "OpArbitraryFloatMulINTEL")
O(0, spv::Op::OpArbitraryFloatDivINTEL, "OpArbitraryFloatDivINTEL")
O(0, spv::Op::OpArbitraryFloatGTINTEL, "OpArbitraryFloatGTINTEL")
O(0, spv::Op::OpArbitraryFloatGEINTEL, "OpArbitraryFloatGEINTEL")
O(0, spv::Op::OpArbitraryFloatLTINTEL, "OpArbitraryFloatLTINTEL")
O(0, spv::Op::OpArbitraryFloatLEINTEL, "OpArbitraryFloatLEINTEL")
O(0, spv::Op::OpArbitraryFloatEQINTEL, "OpArbitraryFloatEQINTEL")
O(0, spv::Op::OpArbitraryFloatRecipINTEL, "OpArbitraryFloatRecipINTEL")
O(0, spv::Op::OpArbitraryFloatRSqrtINTEL, "OpArbitraryFloatRSqrtINTEL")
O(0, spv::Op::OpArbitraryFloatCbrtINTEL, "OpArbitraryFloatCbrtINTEL")
O(0, spv::Op::OpArbitraryFloatHypotINTEL, "OpArbitraryFloatHypotINTEL")
O(0, spv::Op::OpArbitraryFloatSqrtINTEL, "OpArbitraryFloatSqrtINTEL")
O(0, spv::Op::OpArbitraryFloatLogINTEL, "OpArbitraryFloatLogINTEL")
O(0, spv::Op::OpArbitraryFloatLog2INTEL, "OpArbitraryFloatLog2INTEL")
O(0, spv::Op::OpArbitraryFloatLog10INTEL, "OpArbitraryFloatLog10INTEL")
O(0, spv::Op::OpArbitraryFloatLog1pINTEL, "OpArbitraryFloatLog1pINTEL")
O(0, spv::Op::OpArbitraryFloatExpINTEL, "OpArbitraryFloatExpINTEL")
O(0, spv::Op::OpArbitraryFloatExp2INTEL, "OpArbitraryFloatExp2INTEL")
O(0, spv::Op::OpArbitraryFloatExp10INTEL, "OpArbitraryFloatExp10INTEL")
O(0, spv::Op::OpArbitraryFloatExpm1INTEL, "OpArbitraryFloatExpm1INTEL")
O(0, spv::Op::OpArbitraryFloatSinINTEL, "OpArbitraryFloatSinINTEL")
O(0, spv::Op::OpArbitraryFloatCosINTEL, "OpArbitraryFloatCosINTEL")
O(0, spv::Op::OpArbitraryFloatSinCosINTEL, "OpArbitraryFloatSinCosINTEL")
O(0, spv::Op::OpArbitraryFloatSinPiINTEL, "OpArbitraryFloatSinPiINTEL")
O(0, spv::Op::OpArbitraryFloatCosPiINTEL, "OpArbitraryFloatCosPiINTEL")
O(0, spv::Op::OpArbitraryFloatASinINTEL, "OpArbitraryFloatASinINTEL")
O(0, spv::Op::OpArbitraryFloatASinPiINTEL, "OpArbitraryFloatASinPiINTEL")
O(0, spv::Op::OpArbitraryFloatACosINTEL, "OpArbitraryFloatACosINTEL")
O(0, spv::Op::OpArbitraryFloatACosPiINTEL, "OpArbitraryFloatACosPiINTEL")
O(0, spv::Op::OpArbitraryFloatATanINTEL, "OpArbitraryFloatATanINTEL")
O(0, spv::Op::OpArbitraryFloatATanPiINTEL, "OpArbitraryFloatATanPiINTEL")
O(0, spv::Op::OpArbitraryFloatATan2INTEL, "OpArbitraryFloatATan2INTEL")
O(0, spv::Op::OpArbitraryFloatPowINTEL, "OpArbitraryFloatPowINTEL")
O(0, spv::Op::OpArbitraryFloatPowRINTEL, "OpArbitraryFloatPowRINTEL")
O(0, spv::Op::OpArbitraryFloatPowNINTEL, "OpArbitraryFloatPowNINTEL")
O(0, spv::Op::OpLoopControlINTEL, "OpLoopControlINTEL")
O(0, spv::Op::OpAliasDomainDeclINTEL, "OpAliasDomainDeclINTEL")
O(0, spv::Op::OpAliasScopeDeclINTEL, "OpAliasScopeDeclINTEL")
O(0, spv::Op::OpAliasScopeListDeclINTEL, "OpAliasScopeListDeclINTEL")
O(0, spv::Op::OpFixedSqrtINTEL, "OpFixedSqrtINTEL")
O(0, spv::Op::OpFixedRecipINTEL, "OpFixedRecipINTEL")
O(0, spv::Op::OpFixedRsqrtINTEL, "OpFixedRsqrtINTEL")
O(0, spv::Op::OpFixedSinINTEL, "OpFixedSinINTEL")
O(0, spv::Op::OpFixedCosINTEL, "OpFixedCosINTEL")
O(0, spv::Op::OpFixedSinCosINTEL, "OpFixedSinCosINTEL")
O(0, spv::Op::OpFixedSinPiINTEL, "OpFixedSinPiINTEL")
O(0, spv::Op::OpFixedCosPiINTEL, "OpFixedCosPiINTEL")
O(0, spv::Op::OpFixedSinCosPiINTEL, "OpFixedSinCosPiINTEL")
O(0, spv::Op::OpFixedLogINTEL, "OpFixedLogINTEL")
O(0, spv::Op::OpFixedExpINTEL, "OpFixedExpINTEL")
O(0, spv::Op::OpPtrCastToCrossWorkgroupINTEL, "OpPtrCastToCrossWorkgroupINTEL")
O(0, spv::Op::OpCrossWorkgroupCastToPtrINTEL, "OpCrossWorkgroupCastToPtrINTEL")
O(0, spv::Op::OpReadPipeBlockingINTEL, "OpReadPipeBlockingINTEL")
O(0, spv::Op::OpWritePipeBlockingINTEL, "OpWritePipeBlockingINTEL")
O(0, spv::Op::OpFPGARegINTEL, "OpFPGARegINTEL")
O(0, spv::Op::OpRayQueryGetRayTMinKHR, "OpRayQueryGetRayTMinKHR")
O(0, spv::Op::OpRayQueryGetRayFlagsKHR, "OpRayQueryGetRayFlagsKHR")
O(0, spv::Op::OpRayQueryGetIntersectionTKHR, "OpRayQueryGetIntersectionTKHR")
O(0, spv::Op::OpRayQueryGetIntersectionInstanceCustomIndexKHR, "OpRayQueryGetIntersectionInstanceCustomIndexKHR")
O(0, spv::Op::OpRayQueryGetIntersectionInstanceIdKHR, "OpRayQueryGetIntersectionInstanceIdKHR")
O(0, spv::Op::OpRayQueryGetIntersectionInstanceShaderBindingTableRecordOffsetKHR, "OpRayQueryGetIntersectionInstanceShaderBindingTableRecordOffsetKHR")
O(0, spv::Op::OpRayQueryGetIntersectionGeometryIndexKHR, "OpRayQueryGetIntersectionGeometryIndexKHR")
O(0, spv::Op::OpRayQueryGetIntersectionPrimitiveIndexKHR, "OpRayQueryGetIntersectionPrimitiveIndexKHR")
O(0, spv::Op::OpRayQueryGetIntersectionBarycentricsKHR, "OpRayQueryGetIntersectionBarycentricsKHR")
O(0, spv::Op::OpRayQueryGetIntersectionFrontFaceKHR, "OpRayQueryGetIntersectionFrontFaceKHR")
O(0, spv::Op::OpRayQueryGetIntersectionCandidateAABBOpaqueKHR, "OpRayQueryGetIntersectionCandidateAABBOpaqueKHR")
O(0, spv::Op::OpRayQueryGetIntersectionObjectRayDirectionKHR, "OpRayQueryGetIntersectionObjectRayDirectionKHR")
O(0, spv::Op::OpRayQueryGetIntersectionObjectRayOriginKHR, "OpRayQueryGetIntersectionObjectRayOriginKHR")
O(0, spv::Op::OpRayQueryGetWorldRayDirectionKHR, "OpRayQueryGetWorldRayDirectionKHR")
O(0, spv::Op::OpRayQueryGetWorldRayOriginKHR, "OpRayQueryGetWorldRayOriginKHR")
O(0, spv::Op::OpRayQueryGetIntersectionObjectToWorldKHR, "OpRayQueryGetIntersectionObjectToWorldKHR")
O(0, spv::Op::OpRayQueryGetIntersectionWorldToObjectKHR, "OpRayQueryGetIntersectionWorldToObjectKHR")
O(0, spv::Op::OpAtomicFAddEXT, "OpAtomicFAddEXT")
O(0, spv::Op::OpTypeBufferSurfaceINTEL, "OpTypeBufferSurfaceINTEL")
O(0, spv::Op::OpTypeStructContinuedINTEL, "OpTypeStructContinuedINTEL")
O(0, spv::Op::OpConstantCompositeContinuedINTEL, "OpConstantCompositeContinuedINTEL")
O(0, spv::Op::OpSpecConstantCompositeContinuedINTEL, "OpSpecConstantCompositeContinuedINTEL")
O(0, spv::Op::OpConvertFToBF16INTEL, "OpConvertFToBF16INTEL")
O(0, spv::Op::OpConvertBF16ToFINTEL, "OpConvertBF16ToFINTEL")
O(0, spv::Op::OpControlBarrierArriveINTEL, "OpControlBarrierArriveINTEL")
O(0, spv::Op::OpControlBarrierWaitINTEL, "OpControlBarrierWaitINTEL")
O(0, spv::Op::OpGroupIMulKHR, "OpGroupIMulKHR")
O(0, spv::Op::OpGroupFMulKHR, "OpGroupFMulKHR")
O(0, spv::Op::OpGroupBitwiseAndKHR, "OpGroupBitwiseAndKHR")
O(0, spv::Op::OpGroupBitwiseOrKHR, "OpGroupBitwiseOrKHR")
O(0, spv::Op::OpGroupBitwiseXorKHR, "OpGroupBitwiseXorKHR")
O(0, spv::Op::OpGroupLogicalAndKHR, "OpGroupLogicalAndKHR")
O(0, spv::Op::OpGroupLogicalOrKHR, "OpGroupLogicalOrKHR")
O(0, spv::Op::OpGroupLogicalXorKHR, "OpGroupLogicalXorKHR")
O(1, glslstd450::Op::Round, "Round")
O(1, glslstd450::Op::RoundEven, "RoundEven")
O(1, glslstd450::Op::Trunc, "Trunc")
O(1, glslstd450::Op::FAbs, "FAbs")
O(1, glslstd450::Op::SAbs, "SAbs")
O(1, glslstd450::Op::FSign, "FSign")
O(1, glslstd450::Op::SSign, "SSign")
O(1, glslstd450::Op::Floor, "Floor")
O(1, glslstd450::Op::Ceil, "Ceil")
O(1, glslstd450::Op::Fract, "Fract")
O(1, glslstd450::Op::Radians, "Radians")
O(1, glslstd450::Op::Degrees, "Degrees")
O(1, glslstd450::Op::Sin, "Sin")
O(1, glslstd450::Op::Cos, "Cos")
O(1, glslstd450::Op::Tan, "Tan")
O(1, glslstd450::Op::Asin, "Asin")
O(1, glslstd450::Op::Acos, "Acos")
O(1, glslstd450::Op::Atan, "Atan")
O(1, glslstd450::Op::Sinh, "Sinh")
O(1, glslstd450::Op::Cosh, "Cosh")
O(1, glslstd450::Op::Tanh, "Tanh")
O(1, glslstd450::Op::Asinh, "Asinh")
O(1, glslstd450::Op::Acosh, "Acosh")
O(1, glslstd450::Op::Atanh, "Atanh")
O(1, glslstd450::Op::Atan2, "Atan2")
O(1, glslstd450::Op::Pow, "Pow")
O(1, glslstd450::Op::Exp, "Exp")
O(1, glslstd450::Op::Log, "Log")
O(1, glslstd450::Op::Exp2, "Exp2")
O(1, glslstd450::Op::Log2, "Log2")
O(1, glslstd450::Op::Sqrt, "Sqrt")
O(1, glslstd450::Op::InverseSqrt, "InverseSqrt")
O(1, glslstd450::Op::Determinant, "Determinant")
O(1, glslstd450::Op::MatrixInverse, "MatrixInverse")
O(1, glslstd450::Op::Modf, "Modf")
O(1, glslstd450::Op::ModfStruct, "ModfStruct")
O(1, glslstd450::Op::FMin, "FMin")
O(1, glslstd450::Op::UMin, "UMin")
O(1, glslstd450::Op::SMin, "SMin")
O(1, glslstd450::Op::FMax, "FMax")
O(1, glslstd450::Op::UMax, "UMax")
O(1, glslstd450::Op::SMax, "SMax")
O(1, glslstd450::Op::FClamp, "FClamp")
O(1, glslstd450::Op::UClamp, "UClamp")
O(1, glslstd450::Op::SClamp, "SClamp")
O(1, glslstd450::Op::FMix, "FMix")
O(1, glslstd450::Op::IMix, "IMix")
O(1, glslstd450::Op::Step, "Step")
O(1, glslstd450::Op::SmoothStep, "SmoothStep")
O(1, glslstd450::Op::Fma, "Fma")
O(1, glslstd450::Op::Frexp, "Frexp")
O(1, glslstd450::Op::FrexpStruct, "FrexpStruct")
O(1, glslstd450::Op::Ldexp, "Ldexp")
O(1, glslstd450::Op::PackSnorm4x8, "PackSnorm4x8")
O(1, glslstd450::Op::PackUnorm4x8, "PackUnorm4x8")
O(1, glslstd450::Op::PackSnorm2x16, "PackSnorm2x16")
O(1, glslstd450::Op::PackUnorm2x16, "PackUnorm2x16")
O(1, glslstd450::Op::PackHalf2x16, "PackHalf2x16")
O(1, glslstd450::Op::PackDouble2x32, "PackDouble2x32")
O(1, glslstd450::Op::UnpackSnorm2x16, "UnpackSnorm2x16")
O(1, glslstd450::Op::UnpackUnorm2x16, "UnpackUnorm2x16")
O(1, glslstd450::Op::UnpackHalf2x16, "UnpackHalf2x16")
O(1, glslstd450::Op::UnpackSnorm4x8, "UnpackSnorm4x8")
O(1, glslstd450::Op::UnpackUnorm4x8, "UnpackUnorm4x8")
O(1, glslstd450::Op::UnpackDouble2x32, "UnpackDouble2x32")
O(1, glslstd450::Op::Length, "Length")
O(1, glslstd450::Op::Distance, "Distance")
O(1, glslstd450::Op::Cross, "Cross")
O(1, glslstd450::Op::Normalize, "Normalize")
O(1, glslstd450::Op::FaceForward, "FaceForward")
O(1, glslstd450::Op::Reflect, "Reflect")
O(1, glslstd450::Op::Refract, "Refract")
O(1, glslstd450::Op::FindILsb, "FindILsb")
O(1, glslstd450::Op::FindSMsb, "FindSMsb")
O(1, glslstd450::Op::FindUMsb, "FindUMsb")
O(1, glslstd450::Op::InterpolateAtCentroid, "InterpolateAtCentroid")
O(1, glslstd450::Op::InterpolateAtSample, "InterpolateAtSample")
O(1, glslstd450::Op::InterpolateAtOffset, "InterpolateAtOffset")
O(1, glslstd450::Op::NMin, "NMin")
O(1, glslstd450::Op::NMax, "NMax")
O(1, glslstd450::Op::NClamp, "NClamp")
O(2, opencl100::Op::acos, "acos")
O(2, opencl100::Op::acosh, "acosh")
O(2, opencl100::Op::acospi, "acospi")
O(2, opencl100::Op::asin, "asin")
O(2, opencl100::Op::asinh, "asinh")
O(2, opencl100::Op::asinpi, "asinpi")
O(2, opencl100::Op::atan, "atan")
O(2, opencl100::Op::atan2, "atan2")
O(2, opencl100::Op::atanh, "atanh")
O(2, opencl100::Op::atanpi, "atanpi")
O(2, opencl100::Op::atan2pi, "atan2pi")
O(2, opencl100::Op::cbrt, "cbrt")
O(2, opencl100::Op::ceil, "ceil")
O(2, opencl100::Op::copysign, "copysign")
O(2, opencl100::Op::cos, "cos")
O(2, opencl100::Op::cosh, "cosh")
O(2, opencl100::Op::cospi, "cospi")
O(2, opencl100::Op::erfc, "erfc")
O(2, opencl100::Op::erf, "erf")
O(2, opencl100::Op::exp, "exp")
O(2, opencl100::Op::exp2, "exp2")
O(2, opencl100::Op::exp10, "exp10")
O(2, opencl100::Op::expm1, "expm1")
O(2, opencl100::Op::fabs, "fabs")
O(2, opencl100::Op::fdim, "fdim")
O(2, opencl100::Op::floor, "floor")
O(2, opencl100::Op::fma, "fma")
O(2, opencl100::Op::fmax, "fmax")
O(2, opencl100::Op::fmin, "fmin")
O(2, opencl100::Op::fmod, "fmod")
O(2, opencl100::Op::fract, "fract")
O(2, opencl100::Op::frexp, "frexp")
O(2, opencl100::Op::hypot, "hypot")
O(2, opencl100::Op::ilogb, "ilogb")
O(2, opencl100::Op::ldexp, "ldexp")
O(2, opencl100::Op::lgamma, "lgamma")
O(2, opencl100::Op::lgamma_r, "lgamma_r")
O(2, opencl100::Op::log, "log")
O(2, opencl100::Op::log2, "log2")
O(2, opencl100::Op::log10, "log10")
O(2, opencl100::Op::log1p, "log1p")
O(2, opencl100::Op::logb, "logb")
O(2, opencl100::Op::mad, "mad")
O(2, opencl100::Op::maxmag, "maxmag")
O(2, opencl100::Op::minmag, "minmag")
O(2, opencl100::Op::modf, "modf")
O(2, opencl100::Op::nan, "nan")
O(2, opencl100::Op::nextafter, "nextafter")
O(2, opencl100::Op::pow, "pow")
O(2, opencl100::Op::pown, "pown")
O(2, opencl100::Op::powr, "powr")
O(2, opencl100::Op::remainder, "remainder")
O(2, opencl100::Op::remquo, "remquo")
O(2, opencl100::Op::rint, "rint")
O(2, opencl100::Op::rootn, "rootn")
O(2, opencl100::Op::round, "round")
O(2, opencl100::Op::rsqrt, "rsqrt")
O(2, opencl100::Op::sin, "sin")
O(2, opencl100::Op::sincos, "sincos")
O(2, opencl100::Op::sinh, "sinh")
O(2, opencl100::Op::sinpi, "sinpi")
O(2, opencl100::Op::sqrt, "sqrt")
O(2, opencl100::Op::tan, "tan")
O(2, opencl100::Op::tanh, "tanh")
O(2, opencl100::Op::tanpi, "tanpi")
O(2, opencl100::Op::tgamma, "tgamma")
O(2, opencl100::Op::trunc, "trunc")
O(2, opencl100::Op::half_cos, "half_cos")
O(2, opencl100::Op::half_divide, "half_divide")
O(2, opencl100::Op::half_exp, "half_exp")
O(2, opencl100::Op::half_exp2, "half_exp2")
O(2, opencl100::Op::half_exp10, "half_exp10")
O(2, opencl100::Op::half_log, "half_log")
O(2, opencl100::Op::half_log2, "half_log2")
O(2, opencl100::Op::half_log10, "half_log10")
O(2, opencl100::Op::half_powr, "half_powr")
O(2, opencl100::Op::half_recip, "half_recip")
O(2, opencl100::Op::half_rsqrt, "half_rsqrt")
O(2, opencl100::Op::half_sin, "half_sin")
O(2, opencl100::Op::half_sqrt, "half_sqrt")
O(2, opencl100::Op::half_tan, "half_tan")
O(2, opencl100::Op::native_cos, "native_cos")
O(2, opencl100::Op::native_divide, "native_divide")
O(2, opencl100::Op::native_exp, "native_exp")
O(2, opencl100::Op::native_exp2, "native_exp2")
O(2, opencl100::Op::native_exp10, "native_exp10")
O(2, opencl100::Op::native_log, "native_log")
O(2, opencl100::Op::native_log2, "native_log2")
O(2, opencl100::Op::native_log10, "native_log10")
O(2, opencl100::Op::native_powr, "native_powr")
O(2, opencl100::Op::native_recip, "native_recip")
O(2, opencl100::Op::native_rsqrt, "native_rsqrt")
O(2, opencl100::Op::native_sin, "native_sin")
O(2, opencl100::Op::native_sqrt, "native_sqrt")
O(2, opencl100::Op::native_tan, "native_tan")
O(2, opencl100::Op::s_abs, "s_abs")
O(2, opencl100::Op::s_abs_diff, "s_abs_diff")
O(2, opencl100::Op::s_add_sat, "s_add_sat")
O(2, opencl100::Op::u_add_sat, "u_add_sat")
O(2, opencl100::Op::s_hadd, "s_hadd")
O(2, opencl100::Op::u_hadd, "u_hadd")
O(2, opencl100::Op::s_rhadd, "s_rhadd")
O(2, opencl100::Op::u_rhadd, "u_rhadd")
O(2, opencl100::Op::s_clamp, "s_clamp")
O(2, opencl100::Op::u_clamp, "u_clamp")
O(2, opencl100::Op::clz, "clz")
O(2, opencl100::Op::ctz, "ctz")
O(2, opencl100::Op::s_mad_hi, "s_mad_hi")
O(2, opencl100::Op::u_mad_sat, "u_mad_sat")
O(2, opencl100::Op::s_mad_sat, "s_mad_sat")
O(2, opencl100::Op::s_max, "s_max")
O(2, opencl100::Op::u_max, "u_max")
O(2, opencl100::Op::s_min, "s_min")
O(2, opencl100::Op::u_min, "u_min")
O(2, opencl100::Op::s_mul_hi, "s_mul_hi")
O(2, opencl100::Op::rotate, "rotate")
O(2, opencl100::Op::s_sub_sat, "s_sub_sat")
O(2, opencl100::Op::u_sub_sat, "u_sub_sat")
O(2, opencl100::Op::u_upsample, "u_upsample")
O(2, opencl100::Op::s_upsample, "s_upsample")
O(2, opencl100::Op::popcount, "popcount")
O(2, opencl100::Op::s_mad24, "s_mad24")
O(2, opencl100::Op::u_mad24, "u_mad24")
O(2, opencl100::Op::s_mul24, "s_mul24")
O(2, opencl100::Op::u_mul24, "u_mul24")
O(2, opencl100::Op::u_abs, "u_abs")
O(2, opencl100::Op::u_abs_diff, "u_abs_diff")
O(2, opencl100::Op::u_mul_hi, "u_mul_hi")
O(2, opencl100::Op::u_mad_hi, "u_mad_hi")
O(2, opencl100::Op::fclamp, "fclamp")
O(2, opencl100::Op::degrees, "degrees")
O(2, opencl100::Op::fmax_common, "fmax_common")
O(2, opencl100::Op::fmin_common, "fmin_common")
O(2, opencl100::Op::mix, "mix")
O(2, opencl100::Op::radians, "radians")
O(2, opencl100::Op::step, "step")
O(2, opencl100::Op::smoothstep, "smoothstep")
O(2, opencl100::Op::sign, "sign")
O(2, opencl100::Op::cross, "cross")
O(2, opencl100::Op::distance, "distance")
O(2, opencl100::Op::length, "length")
O(2, opencl100::Op::normalize, "normalize")
O(2, opencl100::Op::fast_distance, "fast_distance")
O(2, opencl100::Op::fast_length, "fast_length")
O(2, opencl100::Op::fast_normalize, "fast_normalize")
O(2, opencl100::Op::bitselect, "bitselect")
O(2, opencl100::Op::select, "select")
O(2, opencl100::Op::vloadn, "vloadn")
O(2, opencl100::Op::vstoren, "vstoren")
O(2, opencl100::Op::vload_half, "vload_half")
O(2, opencl100::Op::vload_halfn, "vload_halfn")
O(2, opencl100::Op::vstore_half, "vstore_half")
O(2, opencl100::Op::vstore_half_r, "vstore_half_r")
O(2, opencl100::Op::vstore_halfn, "vstore_halfn")
O(2, opencl100::Op::vstore_halfn_r, "vstore_halfn_r")
O(2, opencl100::Op::vloada_halfn, "vloada_halfn")
O(2, opencl100::Op::vstorea_halfn, "vstorea_halfn")
O(2, opencl100::Op::vstorea_halfn_r, "vstorea_halfn_r")
O(2, opencl100::Op::shuffle, "shuffle")
O(2, opencl100::Op::shuffle2, "shuffle2")
O(2, opencl100::Op::printf, "printf")
O(2, opencl100::Op::prefetch, "prefetch")
