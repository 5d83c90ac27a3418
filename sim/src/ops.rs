//! Opcode table of the reference model, written down from the binary-format
//! chapter of the WebAssembly 3.0 specification.  `op` is the single byte, or
//! `(prefix << 16) | sub-opcode` for prefixed instructions.
//!
//! The same table drives (1) the model decoder, (2) the workload generator and
//! (3) the canonicaliser that turns a decoded `Instruction` back into an opcode.
use wadec::core::instruction::{BlockType, Catch, Instruction, Memarg};
use wadec::core::types::heaptype::{AbsHeapType, HeapType};
use wadec::core::types::reftype::RefType;
use wadec::core::types::valtype::ValType;
use wadec::core::types::{NumType, VecType};

pub const OP_ELSE: u64 = 0x05;
pub const OP_END: u64 = 0x0B;

/// Immediates of an instruction, in the order they appear in the binary.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sh {
    None,
    U32,
    U32x2,
    Memarg,
    MemLane,
    Lane,
    I32,
    I64,
    F32,
    F64,
    Bytes16,
    Block,
    TryTable,
    BrTable,
    SelectT,
    Heap,
    Cast,
}

macro_rules! ops {
    (NOIMM { $($nn:ident $nop:literal),* $(,)? }
     MEMARG { $($mn:ident $mop:literal),* $(,)? }
     MEMLANE { $($bn:ident $bop:literal),* $(,)? }
     LANE { $($ln:ident $lop:literal),* $(,)? }
     IDX { $($in_:ident $iop:literal),* $(,)? }
     IDX2 { $($jn:ident $jop:literal),* $(,)? }
     IDX2REV { $($kn:ident $kop:literal),* $(,)? }
     IDXU { $($un:ident $uop:literal),* $(,)? }
    ) => {
        pub static SIMPLE: &[(u32, Sh)] = &[
            $(($nop, Sh::None),)*
            $(($mop, Sh::Memarg),)*
            $(($bop, Sh::MemLane),)*
            $(($lop, Sh::Lane),)*
            $(($iop, Sh::U32),)*
            $(($jop, Sh::U32x2),)*
            $(($kop, Sh::U32x2),)*
            $(($uop, Sh::U32x2),)*
        ];
        pub static NAMES: &[(&str, u32)] = &[
            $((stringify!($nn), $nop),)*
            $((stringify!($mn), $mop),)*
            $((stringify!($bn), $bop),)*
            $((stringify!($ln), $lop),)*
            $((stringify!($in_), $iop),)*
            $((stringify!($jn), $jop),)*
            $((stringify!($kn), $kop),)*
            $((stringify!($un), $uop),)*
            ("Block", 0x02), ("Loop", 0x03), ("If", 0x04), ("TryTable", 0x1F), ("Catch", 0x1F), ("BrTable", 0x0E),
            ("Select", 0x1C), ("I32Const", 0x41), ("I64Const", 0x42), ("F32Const", 0x43), ("F64Const", 0x44),
            ("RefNull", 0xD0), ("RefTest", 0xFB0014), ("RefCast", 0xFB0016), ("BrOnCast", 0xFB0018),
            ("BrOnCastFail", 0xFB0019), ("V128Const", 0xFD000C), ("I8x16Shuffle", 0xFD000D),
        ];
        fn canon_simple(ins: &Instruction, o: &mut Vec<u64>) -> bool {
            match ins {
                $(Instruction::$nn => o.push($nop),)*
                $(Instruction::$mn(m) => { o.push($mop); memarg(m, o) })*
                $(Instruction::$bn(m, l) => { o.push($bop); memarg(m, o); o.push(l.0 as u64) })*
                $(Instruction::$ln(l) => { o.push($lop); o.push(l.0 as u64) })*
                $(Instruction::$in_(x) => { o.push($iop); o.push(x.0 as u64) })*
                $(Instruction::$jn(x, y) => { o.push($jop); o.push(x.0 as u64); o.push(y.0 as u64) })*
                $(Instruction::$kn(x, y) => { o.push($kop); o.push(y.0 as u64); o.push(x.0 as u64) })*
                $(Instruction::$un(x, y) => { o.push($uop); o.push(x.0 as u64); o.push(*y as u64) })*
                _ => return false,
            }
            true
        }
    };
}

ops! {
    NOIMM {
        Unreachable 0x0, Nop 0x1, ThrowRef 0xA, Return 0xF, Drop 0x1A, I32Eqz 0x45, I32Eq 0x46,
        I32Ne 0x47, I32LtS 0x48, I32LtU 0x49, I32GtS 0x4A, I32GtU 0x4B, I32LeS 0x4C, I32LeU 0x4D,
        I32GeS 0x4E, I32GeU 0x4F, I64Eqz 0x50, I64Eq 0x51, I64Ne 0x52, I64LtS 0x53, I64LtU 0x54,
        I64GtS 0x55, I64GtU 0x56, I64LeS 0x57, I64LeU 0x58, I64GeS 0x59, I64GeU 0x5A, F32Eq 0x5B,
        F32Ne 0x5C, F32Lt 0x5D, F32Gt 0x5E, F32Le 0x5F, F32Ge 0x60, F64Eq 0x61, F64Ne 0x62,
        F64Lt 0x63, F64Gt 0x64, F64Le 0x65, F64Ge 0x66, I32Clz 0x67, I32Ctz 0x68, I32Popcnt 0x69,
        I32Add 0x6A, I32Sub 0x6B, I32Mul 0x6C, I32DivS 0x6D, I32DivU 0x6E, I32RemS 0x6F,
        I32RemU 0x70, I32And 0x71, I32Or 0x72, I32Xor 0x73, I32Shl 0x74, I32ShrS 0x75,
        I32ShrU 0x76, I32Rotl 0x77, I32Rotr 0x78, I64Clz 0x79, I64Ctz 0x7A, I64Popcnt 0x7B,
        I64Add 0x7C, I64Sub 0x7D, I64Mul 0x7E, I64DivS 0x7F, I64DivU 0x80, I64RemS 0x81,
        I64RemU 0x82, I64And 0x83, I64Or 0x84, I64Xor 0x85, I64Shl 0x86, I64ShrS 0x87,
        I64ShrU 0x88, I64Rotl 0x89, I64Rotr 0x8A, F32Abs 0x8B, F32Neg 0x8C, F32Ceil 0x8D,
        F32Floor 0x8E, F32Trunc 0x8F, F32Nearest 0x90, F32Sqrt 0x91, F32Add 0x92, F32Sub 0x93,
        F32Mul 0x94, F32Div 0x95, F32Min 0x96, F32Max 0x97, F32Copysign 0x98, F64Abs 0x99,
        F64Neg 0x9A, F64Ceil 0x9B, F64Floor 0x9C, F64Trunc 0x9D, F64Nearest 0x9E, F64Sqrt 0x9F,
        F64Add 0xA0, F64Sub 0xA1, F64Mul 0xA2, F64Div 0xA3, F64Min 0xA4, F64Max 0xA5,
        F64Copysign 0xA6, I32WrapI64 0xA7, I32TruncF32S 0xA8, I32TruncF32U 0xA9, I32TruncF64S 0xAA,
        I32TruncF64U 0xAB, I64ExtendI32S 0xAC, I64ExtendI32U 0xAD, I64TruncF32S 0xAE,
        I64TruncF32U 0xAF, I64TruncF64S 0xB0, I64TruncF64U 0xB1, F32ConvertI32S 0xB2,
        F32ConvertI32U 0xB3, F32ConvertI64S 0xB4, F32ConvertI64U 0xB5, F32DemoteF64 0xB6,
        F64ConvertI32S 0xB7, F64ConvertI32U 0xB8, F64ConvertI64S 0xB9, F64ConvertI64U 0xBA,
        F64PromoteF32 0xBB, I32ReinterpretF32 0xBC, I64ReinterpretF64 0xBD, F32ReinterpretI32 0xBE,
        F64ReinterpretI64 0xBF, I32Extend8S 0xC0, I32Extend16S 0xC1, I64Extend8S 0xC2,
        I64Extend16S 0xC3, I64Extend32S 0xC4, RefIsNull 0xD1, RefEq 0xD3, RefAsNonNull 0xD4,
        ArrayLen 0xFB000F, AnyConvertExtern 0xFB001A, ExternConvertAny 0xFB001B, RefI31 0xFB001C,
        I31GetS 0xFB001D, I31GetU 0xFB001E, I32TruncSatF32S 0xFC0000, I32TruncSatF32U 0xFC0001,
        I32TruncSatF64S 0xFC0002, I32TruncSatF64U 0xFC0003, I64TruncSatF32S 0xFC0004,
        I64TruncSatF32U 0xFC0005, I64TruncSatF64S 0xFC0006, I64TruncSatF64U 0xFC0007,
        I8x16Swizzle 0xFD000E, I8x16Splat 0xFD000F, I16x8Splat 0xFD0010, I32x4Splat 0xFD0011,
        I64x2Splat 0xFD0012, F32x4Splat 0xFD0013, F64x2Splat 0xFD0014, I8x16Eq 0xFD0023,
        I8x16Ne 0xFD0024, I8x16LtS 0xFD0025, I8x16LtU 0xFD0026, I8x16GtS 0xFD0027,
        I8x16GtU 0xFD0028, I8x16LeS 0xFD0029, I8x16LeU 0xFD002A, I8x16GeS 0xFD002B,
        I8x16GeU 0xFD002C, I16x8Eq 0xFD002D, I16x8Ne 0xFD002E, I16x8LtS 0xFD002F,
        I16x8LtU 0xFD0030, I16x8GtS 0xFD0031, I16x8GtU 0xFD0032, I16x8LeS 0xFD0033,
        I16x8LeU 0xFD0034, I16x8GeS 0xFD0035, I16x8GeU 0xFD0036, I32x4Eq 0xFD0037,
        I32x4Ne 0xFD0038, I32x4LtS 0xFD0039, I32x4LtU 0xFD003A, I32x4GtS 0xFD003B,
        I32x4GtU 0xFD003C, I32x4LeS 0xFD003D, I32x4LeU 0xFD003E, I32x4GeS 0xFD003F,
        I32x4GeU 0xFD0040, F32x4Eq 0xFD0041, F32x4Ne 0xFD0042, F32x4Lt 0xFD0043, F32x4Gt 0xFD0044,
        F32x4Le 0xFD0045, F32x4Ge 0xFD0046, F64x2Eq 0xFD0047, F64x2Ne 0xFD0048, F64x2Lt 0xFD0049,
        F64x2Gt 0xFD004A, F64x2Le 0xFD004B, F64x2Ge 0xFD004C, V128Not 0xFD004D, V128And 0xFD004E,
        V128AndNot 0xFD004F, V128Or 0xFD0050, V128Xor 0xFD0051, V128Bitselect 0xFD0052,
        V128AnyTrue 0xFD0053, F32x4DemoteF64x2Zero 0xFD005E, F64x2PromoteLowF32x4 0xFD005F,
        I8x16Abs 0xFD0060, I8x16Neg 0xFD0061, I8x16Popcnt 0xFD0062, I8x16AllTrue 0xFD0063,
        I8x16Bitmask 0xFD0064, I8x16NarrowI16x8S 0xFD0065, I8x16NarrowI16x8U 0xFD0066,
        F32x4Ceil 0xFD0067, F32x4Floor 0xFD0068, F32x4Trunc 0xFD0069, F32x4Nearest 0xFD006A,
        I8x16Shl 0xFD006B, I8x16ShrS 0xFD006C, I8x16ShrU 0xFD006D, I8x16Add 0xFD006E,
        I8x16AddSatS 0xFD006F, I8x16AddSatU 0xFD0070, I8x16Sub 0xFD0071, I8x16SubSatS 0xFD0072,
        I8x16SubSatU 0xFD0073, F64x2Ceil 0xFD0074, F64x2Floor 0xFD0075, I8x16MinS 0xFD0076,
        I8x16MinU 0xFD0077, I8x16MaxS 0xFD0078, I8x16MaxU 0xFD0079, F64x2Trunc 0xFD007A,
        I8x16AvgrU 0xFD007B, I16x8ExtaddPairwiseI8x16S 0xFD007C,
        I16x8ExtaddPairwiseI8x16U 0xFD007D, I32x4ExtaddPairwiseI16x8S 0xFD007E,
        I32x4ExtaddPairwiseI16x8U 0xFD007F, I16x8Abs 0xFD0080, I16x8Neg 0xFD0081,
        I16x8Q15MulrSatS 0xFD0082, I16x8AllTrue 0xFD0083, I16x8Bitmask 0xFD0084,
        I16x8NarrowI32x4S 0xFD0085, I16x8NarrowI32x4U 0xFD0086, I16x8ExtendLowI8x16S 0xFD0087,
        I16x8ExtendHighI8x16S 0xFD0088, I16x8ExtendLowI8x16U 0xFD0089,
        I16x8ExtendHighI8x16U 0xFD008A, I16x8Shl 0xFD008B, I16x8ShrS 0xFD008C, I16x8ShrU 0xFD008D,
        I16x8Add 0xFD008E, I16x8AddSatS 0xFD008F, I16x8AddSatU 0xFD0090, I16x8Sub 0xFD0091,
        I16x8SubSatS 0xFD0092, I16x8SubSatU 0xFD0093, F64x2Nearest 0xFD0094, I16x8Mul 0xFD0095,
        I16x8MinS 0xFD0096, I16x8MinU 0xFD0097, I16x8MaxS 0xFD0098, I16x8MaxU 0xFD0099,
        I16x8AvgrU 0xFD009B, I16x8ExtmulLowI8x16S 0xFD009C, I16x8ExtmulHighI8x16S 0xFD009D,
        I16x8ExtmulLowI8x16U 0xFD009E, I16x8ExtmulHighI8x16U 0xFD009F, I32x4Abs 0xFD00A0,
        I32x4Neg 0xFD00A1, I32x4AllTrue 0xFD00A3, I32x4Bitmask 0xFD00A4,
        I32x4ExtendLowI16x8S 0xFD00A7, I32x4ExtendHighI16x8S 0xFD00A8,
        I32x4ExtendLowI16x8U 0xFD00A9, I32x4ExtendHighI16x8U 0xFD00AA, I32x4Shl 0xFD00AB,
        I32x4ShrS 0xFD00AC, I32x4ShrU 0xFD00AD, I32x4Add 0xFD00AE, I32x4Sub 0xFD00B1,
        I32x4Mul 0xFD00B5, I32x4MinS 0xFD00B6, I32x4MinU 0xFD00B7, I32x4MaxS 0xFD00B8,
        I32x4MaxU 0xFD00B9, I32x4DotI16x8S 0xFD00BA, I32x4ExtmulLowI16x8S 0xFD00BC,
        I32x4ExtmulHighI16x8S 0xFD00BD, I32x4ExtmulLowI16x8U 0xFD00BE,
        I32x4ExtmulHighI16x8U 0xFD00BF, I64x2Abs 0xFD00C0, I64x2Neg 0xFD00C1,
        I64x2AllTrue 0xFD00C3, I64x2Bitmask 0xFD00C4, I64x2ExtendLowI32x4S 0xFD00C7,
        I64x2ExtendHighI32x4S 0xFD00C8, I64x2ExtendLowI32x4U 0xFD00C9,
        I64x2ExtendHighI32x4U 0xFD00CA, I64x2Shl 0xFD00CB, I64x2ShrS 0xFD00CC, I64x2ShrU 0xFD00CD,
        I64x2Add 0xFD00CE, I64x2Sub 0xFD00D1, I64x2Mul 0xFD00D5, I64x2Eq 0xFD00D6,
        I64x2Ne 0xFD00D7, I64x2LtS 0xFD00D8, I64x2GtS 0xFD00D9, I64x2LeS 0xFD00DA,
        I64x2GeS 0xFD00DB, I64x2ExtmulLowI32x4S 0xFD00DC, I64x2ExtmulHighI32x4S 0xFD00DD,
        I64x2ExtmulLowI32x4U 0xFD00DE, I64x2ExtmulHighI32x4U 0xFD00DF, F32x4Abs 0xFD00E0,
        F32x4Neg 0xFD00E1, F32x4Sqrt 0xFD00E3, F32x4Add 0xFD00E4, F32x4Sub 0xFD00E5,
        F32x4Mul 0xFD00E6, F32x4Div 0xFD00E7, F32x4Min 0xFD00E8, F32x4Max 0xFD00E9,
        F32x4PMin 0xFD00EA, F32x4PMax 0xFD00EB, F64x2Abs 0xFD00EC, F64x2Neg 0xFD00ED,
        F64x2Sqrt 0xFD00EF, F64x2Add 0xFD00F0, F64x2Sub 0xFD00F1, F64x2Mul 0xFD00F2,
        F64x2Div 0xFD00F3, F64x2Min 0xFD00F4, F64x2Max 0xFD00F5, F64x2PMin 0xFD00F6,
        F64x2PMax 0xFD00F7, I32x4TruncSatF32x4S 0xFD00F8, I32x4TruncSatF32x4U 0xFD00F9,
        F32x4ConvertI32x4S 0xFD00FA, F32x4ConvertI32x4U 0xFD00FB, I32x4TruncSatF64x2SZero 0xFD00FC,
        I32x4TruncSatF64x2UZero 0xFD00FD, F64x2ConvertLowI32x4S 0xFD00FE,
        F64x2ConvertLowI32x4U 0xFD00FF, I8x16RelaxedSwizzle 0xFD0100,
        I32x4RelaxedTruncF32x4S 0xFD0101, I32x4RelaxedTruncF32x4U 0xFD0102,
        I32x4RelaxedTruncF64x2SZero 0xFD0103, I32x4RelaxedTruncF64x2UZero 0xFD0104,
        F32x4RelaxedMAdd 0xFD0105, F32x4RelaxedNMAdd 0xFD0106, F64x2RelaxedMAdd 0xFD0107,
        F64x2RelaxedNMAdd 0xFD0108, I8x16RelaxedLaneSelect 0xFD0109,
        I16x8RelaxedLaneSelect 0xFD010A, I32x4RelaxedLaneSelect 0xFD010B,
        I64x2RelaxedLaneSelect 0xFD010C, F32x4RelaxedMin 0xFD010D, F32x4RelaxedMax 0xFD010E,
        F64x2RelaxedMin 0xFD010F, F64x2RelaxedMax 0xFD0110, I16x8RelaxedQ15MulrS 0xFD0111,
        I16x8RelaxedDotSI8x16 0xFD0112, I32x4RelaxedDotAddSI16x8 0xFD0113,
    }
    MEMARG {
        I32Load 0x28, I64Load 0x29, F32Load 0x2A, F64Load 0x2B, I32Load8s 0x2C, I32Load8u 0x2D,
        I32Load16s 0x2E, I32Load16u 0x2F, I64Load8s 0x30, I64Load8u 0x31, I64Load16s 0x32,
        I64Load16u 0x33, I64Load32s 0x34, I64Load32u 0x35, I32Store 0x36, I64Store 0x37,
        F32Store 0x38, F64Store 0x39, I32Store8 0x3A, I32Store16 0x3B, I64Store8 0x3C,
        I64Store16 0x3D, I64Store32 0x3E, V128Load 0xFD0000, V128Load8x8S 0xFD0001,
        V128Load8x8U 0xFD0002, V128Load16x4S 0xFD0003, V128Load16x4U 0xFD0004,
        V128Load32x2S 0xFD0005, V128Load32x2U 0xFD0006, V128Load8Splat 0xFD0007,
        V128Load16Splat 0xFD0008, V128Load32Splat 0xFD0009, V128Load64Splat 0xFD000A,
        V128Store 0xFD000B, V128Load32Zero 0xFD005C, V128Load64Zero 0xFD005D,
    }
    MEMLANE {
        V128Load8Lane 0xFD0054, V128Load16Lane 0xFD0055, V128Load32Lane 0xFD0056,
        V128Load64Lane 0xFD0057, V128Store8Lane 0xFD0058, V128Store16Lane 0xFD0059,
        V128Store32Lane 0xFD005A, V128Store64Lane 0xFD005B,
    }
    LANE {
        I8x16ExtractLaneS 0xFD0015, I8x16ExtractLaneU 0xFD0016, I8x16ReplaceLane 0xFD0017,
        I16x8ExtractLaneS 0xFD0018, I16x8ExtractLaneU 0xFD0019, I16x8ReplaceLane 0xFD001A,
        I32x4ExtractLane 0xFD001B, I32x4ReplaceLane 0xFD001C, I64x2ExtractLane 0xFD001D,
        I64x2ReplaceLane 0xFD001E, F32x4ExtractLane 0xFD001F, F32x4ReplaceLane 0xFD0020,
        F64x2ExtractLane 0xFD0021, F64x2ReplaceLane 0xFD0022,
    }
    IDX {
        Throw 0x08, Br 0x0C, BrIf 0x0D, Call 0x10, ReturnCall 0x12, CallRef 0x14,
        ReturnCallRef 0x15, LocalGet 0x20, LocalSet 0x21, LocalTee 0x22, GlobalGet 0x23,
        GlobalSet 0x24, TableGet 0x25, TableSet 0x26, MemorySize 0x3F, MemoryGrow 0x40,
        RefFunc 0xD2, BrOnNull 0xD5, BrOnNonNull 0xD6, StructNew 0xFB0000,
        StructNewDefault 0xFB0001, ArrayNew 0xFB0006, ArrayNewDefault 0xFB0007, ArrayGet 0xFB000B,
        ArrayGetS 0xFB000C, ArrayGetU 0xFB000D, ArraySet 0xFB000E, ArrayFill 0xFB0010,
        DataDrop 0xFC0009, MemoryFill 0xFC000B, ElemDrop 0xFC000D, TableGrow 0xFC000F,
        TableSize 0xFC0010, TableFill 0xFC0011
    }
    IDX2 {
        ArrayNewData 0xFB0009, ArrayNewElem 0xFB000A, ArrayCopy 0xFB0011, ArrayInitData 0xFB0012,
        ArrayInitElem 0xFB0013, MemoryCopy 0xFC000A, TableCopy 0xFC000E
    }
    IDX2REV {
        CallIndirect 0x11, ReturnCallIndirect 0x13, MemoryInit 0xFC0008, TableInit 0xFC000C
    }
    IDXU {
        StructGet 0xFB0002, StructGetS 0xFB0003, StructGetU 0xFB0004, StructSet 0xFB0005,
        ArrayNewFixed 0xFB0008
    }
}

/// Opcodes with irregular immediates.
pub static SPECIAL: &[(u32, Sh)] = &[
    (0x02, Sh::Block),
    (0x03, Sh::Block),
    (0x04, Sh::Block),
    (0x1F, Sh::TryTable),
    (0x0E, Sh::BrTable),
    (0x1B, Sh::None),
    (0x1C, Sh::SelectT),
    (0x41, Sh::I32),
    (0x42, Sh::I64),
    (0x43, Sh::F32),
    (0x44, Sh::F64),
    (0xD0, Sh::Heap),
    (0xFB0014, Sh::Heap),
    (0xFB0015, Sh::Heap),
    (0xFB0016, Sh::Heap),
    (0xFB0017, Sh::Heap),
    (0xFB0018, Sh::Cast),
    (0xFB0019, Sh::Cast),
    (0xFD000C, Sh::Bytes16),
    (0xFD000D, Sh::Bytes16),
];

/// Instructions whose immediates include a data index (spec 5.5.17).
pub const DATA_INDEX_OPS: [u32; 4] = [0xFC0008, 0xFC0009, 0xFB0009, 0xFB0012];

/// The index spaces of an instruction's index immediates, in binary order.
pub fn spaces(op: u32) -> [&'static str; 2] {
    let one = |s| [s, s];
    match op {
        0x08 => one("tag index"),
        0x0C | 0x0D | 0x0E | 0xD5 | 0xD6 => one("label index"),
        0x10 | 0x12 | 0xD2 => one("function index"),
        0x11 | 0x13 => ["type index", "table index"],
        0x14 | 0x15 => one("type index"),
        0x20..=0x22 => one("local index"),
        0x23 | 0x24 => one("global index"),
        0x25 | 0x26 | 0xFC000E..=0xFC0011 => one("table index"),
        0x3F | 0x40 | 0xFC000A | 0xFC000B => one("memory index"),
        0xFC0008 => ["data index", "memory index"],
        0xFC0009 => one("data index"),
        0xFC000C => ["element index", "table index"],
        0xFC000D => one("element index"),
        0xFB0002..=0xFB0005 => ["type index", "field index"],
        0xFB0008 => ["type index", "array fixed length"],
        0xFB0009 | 0xFB0012 => ["type index", "data index"],
        0xFB000A | 0xFB0013 => ["type index", "element index"],
        _ => one("type index"),
    }
}
/// The group of instructions (spec 5.4) an opcode belongs to.
pub fn family(op: u32) -> &'static str {
    match op {
        0xD0 | 0xD2 | 0xFB0014..=0xFB0017 => "reference instruction",
        0xFB0018 | 0xFB0019 | 0xD5 | 0xD6 | 0x00..=0x15 | 0x1F => "control instruction",
        0x1A..=0x1C => "parametric instruction",
        0x20..=0x24 => "variable instruction",
        0x25 | 0x26 | 0xFC000C..=0xFC0011 => "table instruction",
        0x28..=0x40 | 0xFC0008..=0xFC000B => "memory instruction",
        0xFD0000.. => "vector instruction",
        0xFB0000..=0xFBFFFF => "aggregate instruction",
        _ => "numeric instruction",
    }
}

pub struct Table {
    one: [Option<Sh>; 256],
    fb: [Option<Sh>; 32],
    fc: [Option<Sh>; 32],
    fd: [Option<Sh>; 300],
    pub all: Vec<(u32, Sh)>,
}

impl Table {
    pub fn new() -> Self {
        let mut t = Table { one: [None; 256], fb: [None; 32], fc: [None; 32], fd: [None; 300], all: vec![] };
        for &(op, sh) in SIMPLE.iter().chain(SPECIAL) {
            let sub = (op & 0xFFFF) as usize;
            let slot = match op >> 16 {
                0 => &mut t.one[sub],
                0xFB => &mut t.fb[sub],
                0xFC => &mut t.fc[sub],
                0xFD => &mut t.fd[sub],
                _ => unreachable!(),
            };
            assert!(slot.is_none(), "duplicate opcode {op:#x}");
            *slot = Some(sh);
            t.all.push((op, sh));
        }
        t.all.sort_by_key(|x| x.0);
        t
    }
    #[inline]
    pub fn plain(&self, b: u8) -> Option<Sh> {
        self.one[b as usize]
    }
    pub fn prefixed(&self, prefix: u8, sub: u32) -> Option<Sh> {
        let s = sub as usize;
        match prefix {
            0xFB => self.fb.get(s).copied().flatten(),
            0xFC => self.fc.get(s).copied().flatten(),
            0xFD => self.fd.get(s).copied().flatten(),
            _ => None,
        }
    }
}

pub fn table() -> &'static Table {
    static T: std::sync::OnceLock<Table> = std::sync::OnceLock::new();
    T.get_or_init(Table::new)
}

// ---------------------------------------------------------------------------
// Canonical token encodings shared by the model (which emits them directly) and
// the canonicaliser of decoded values below.

pub fn tok_abs(b: u8) -> u64 {
    0x1_0000_0000_0000 | b as u64
}
/// `(nullable, heap type)` to one token.
pub fn tok_ref(nullable: bool, ht: u64) -> u64 {
    0x2_0000_0000_0000 | ((nullable as u64) << 50) | ht
}

pub fn heap(h: &HeapType) -> u64 {
    match h {
        HeapType::Ht(a) => tok_abs(match a {
            AbsHeapType::Exn => 0x69,
            AbsHeapType::Array => 0x6A,
            AbsHeapType::Struct => 0x6B,
            AbsHeapType::I31 => 0x6C,
            AbsHeapType::Eq => 0x6D,
            AbsHeapType::Any => 0x6E,
            AbsHeapType::Extern => 0x6F,
            AbsHeapType::Func => 0x70,
            AbsHeapType::None => 0x71,
            AbsHeapType::NoExtern => 0x72,
            AbsHeapType::NoFunc => 0x73,
            AbsHeapType::NoExn => 0x74,
        }),
        HeapType::TypeIdx(x) => *x as u64,
    }
}
pub fn reft(r: &RefType) -> u64 {
    tok_ref(r.nullable, heap(&r.ht))
}
pub fn val(v: &ValType) -> u64 {
    match v {
        ValType::Num(NumType::Int32) => 0x7F,
        ValType::Num(NumType::Int64) => 0x7E,
        ValType::Num(NumType::Float32) => 0x7D,
        ValType::Num(NumType::Float64) => 0x7C,
        ValType::Vec(VecType::V128) => 0x7B,
        ValType::Ref(r) => reft(r),
    }
}
fn memarg(m: &Memarg, o: &mut Vec<u64>) {
    o.push(m.align as u64);
    o.push(m.mem_idx.0 as u64);
    o.push(m.offset);
}
fn block(b: &BlockType, o: &mut Vec<u64>) {
    match b {
        BlockType::Empty => o.push(0x40),
        BlockType::T(t) => {
            o.push(0x41);
            o.push(val(t))
        }
        BlockType::I(x) => {
            o.push(0x42);
            o.push(*x as u64)
        }
    }
}

pub fn canon_expr(e: &[Instruction], o: &mut Vec<u64>) {
    for i in e {
        canon_ins(i, o);
    }
    o.push(OP_END);
}

fn canon_ins(ins: &Instruction, o: &mut Vec<u64>) {
    if canon_simple(ins, o) {
        return;
    }
    match ins {
        Instruction::Block(b, body) => {
            o.push(0x02);
            block(b, o);
            canon_expr(body, o);
        }
        Instruction::Loop(b, body) => {
            o.push(0x03);
            block(b, o);
            canon_expr(body, o);
        }
        Instruction::If(b, t, e) => {
            o.push(0x04);
            block(b, o);
            for i in t {
                canon_ins(i, o);
            }
            if let Some(e) = e {
                o.push(OP_ELSE);
                for i in e {
                    canon_ins(i, o);
                }
            }
            o.push(OP_END);
        }
        Instruction::TryTable(b, c, body) => {
            o.push(0x1F);
            block(b, o);
            o.push(c.len() as u64);
            for c in c {
                match c {
                    Catch::Catch(x, l) => o.extend([0, x.0 as u64, l.0 as u64]),
                    Catch::CatchRef(x, l) => o.extend([1, x.0 as u64, l.0 as u64]),
                    Catch::CatchAll(l) => o.extend([2, l.0 as u64]),
                    Catch::CatchAllRef(l) => o.extend([3, l.0 as u64]),
                }
            }
            canon_expr(body, o);
        }
        Instruction::BrTable(ls, d) => {
            o.push(0x0E);
            o.push(ls.len() as u64);
            o.extend(ls.iter().map(|l| l.0 as u64));
            o.push(d.0 as u64);
        }
        Instruction::Select(None) => o.push(0x1B),
        Instruction::Select(Some(ts)) => {
            o.push(0x1C);
            o.push(ts.len() as u64);
            o.extend(ts.iter().map(val));
        }
        Instruction::I32Const(x) => o.extend([0x41, *x as i64 as u64]),
        Instruction::I64Const(x) => o.extend([0x42, *x as u64]),
        Instruction::F32Const(x) => o.extend([0x43, x.to_bits() as u64]),
        Instruction::F64Const(x) => o.extend([0x44, x.to_bits()]),
        Instruction::RefNull(h) => o.extend([0xD0, heap(h)]),
        Instruction::RefTest(r) => o.extend([if r.nullable { 0xFB0015 } else { 0xFB0014 }, heap(&r.ht)]),
        Instruction::RefCast(r) => o.extend([if r.nullable { 0xFB0017 } else { 0xFB0016 }, heap(&r.ht)]),
        Instruction::BrOnCast(l, a, b) | Instruction::BrOnCastFail(l, a, b) => {
            o.push(if matches!(ins, Instruction::BrOnCast(..)) { 0xFB0018 } else { 0xFB0019 });
            o.push(a.nullable as u64 | (b.nullable as u64) << 1);
            o.push(l.0 as u64);
            o.push(heap(&a.ht));
            o.push(heap(&b.ht));
        }
        Instruction::V128Const(b) => {
            o.push(0xFD000C);
            o.push(u64::from_le_bytes(b[..8].try_into().unwrap()));
            o.push(u64::from_le_bytes(b[8..].try_into().unwrap()));
        }
        Instruction::I8x16Shuffle(l) => {
            let b: Vec<u8> = l.iter().map(|x| x.0).collect();
            o.push(0xFD000D);
            o.push(u64::from_le_bytes(b[..8].try_into().unwrap()));
            o.push(u64::from_le_bytes(b[8..].try_into().unwrap()));
        }
        #[allow(unreachable_patterns)]
        other => {
            // an instruction the binary format does not define
            o.push(u64::MAX);
            o.push(format!("{other:?}").len() as u64);
        }
    }
}
