//! Opcodes without operands and the coffer instruction each one is.
use coffer::prelude::*;
use coffer::code::Instruction as I;
use coffer::code::{IntOperation as IO, FloatOperation as FO, LoadOrStore::*, ArrayType as A, NumberType as N};

pub fn simple(op: u8) -> Option<I> {
    let arr = [A::Int, A::Long, A::Float, A::Double, A::Reference, A::ByteOrBool, A::Char, A::Short];
    let num = |k: u8, io: IO, fo: Option<FO>| match (k, fo) {
        (0, _) => Some(I::IntOperation(IntType::Int, io)),
        (1, _) => Some(I::IntOperation(IntType::Long, io)),
        (2, Some(f)) => Some(I::FloatOperation(FloatType::Float, f)),
        (3, Some(f)) => Some(I::FloatOperation(FloatType::Double, f)),
        _ => None,
    };
    Some(match op {
        0x00 => I::NoOp, 0x01 => I::PushNull,
        0x2E..=0x35 => I::Array(Load, arr[op as usize - 0x2E]),
        0x4F..=0x56 => I::Array(Store, arr[op as usize - 0x4F]),
        0x57 => I::Pop1, 0x58 => I::Pop2, 0x59 => I::Dup, 0x5A => I::DupX1, 0x5B => I::DupX2,
        0x5C => I::Dup2, 0x5D => I::Dup2X1, 0x5E => I::Dup2X2, 0x5F => I::Swap,
        0x60..=0x77 => {
            let (io, fo) = [(IO::Add, FO::Add), (IO::Subtract, FO::Subtract), (IO::Multiply, FO::Multiply), (IO::Divide, FO::Divide), (IO::Remainder, FO::Remainder), (IO::Negate, FO::Negate)][(op as usize - 0x60) / 4];
            return num((op - 0x60) % 4, io, Some(fo));
        }
        0x78..=0x83 => {
            let io = [IO::ShiftLeft, IO::ShiftRight, IO::UnsignedShiftRight, IO::And, IO::Or, IO::ExclusiveOr][(op as usize - 0x78) / 2];
            return num((op - 0x78) % 2, io, None);
        }
        0x85 => I::ConvertInt(BitType::Long), 0x86 => I::ConvertInt(BitType::Float), 0x87 => I::ConvertInt(BitType::Double),
        0x88 => I::Conversion(N::Long, N::Int), 0x89 => I::Conversion(N::Long, N::Float), 0x8A => I::Conversion(N::Long, N::Double),
        0x8B => I::Conversion(N::Float, N::Int), 0x8C => I::Conversion(N::Float, N::Long), 0x8D => I::Conversion(N::Float, N::Double),
        0x8E => I::Conversion(N::Double, N::Int), 0x8F => I::Conversion(N::Double, N::Long), 0x90 => I::Conversion(N::Double, N::Float),
        0x91 => I::ConvertInt(BitType::Byte), 0x92 => I::ConvertInt(BitType::Char), 0x93 => I::ConvertInt(BitType::Short),
        0x94 => I::CompareLongs,
        0x95 => I::CompareFloats(FloatType::Float, NaNBehavior::ReturnsNegativeOne), 0x96 => I::CompareFloats(FloatType::Float, NaNBehavior::ReturnsOne),
        0x97 => I::CompareFloats(FloatType::Double, NaNBehavior::ReturnsNegativeOne), 0x98 => I::CompareFloats(FloatType::Double, NaNBehavior::ReturnsOne),
        0xAC => I::Return(Some(LocalType::Int)), 0xAD => I::Return(Some(LocalType::Long)), 0xAE => I::Return(Some(LocalType::Float)),
        0xAF => I::Return(Some(LocalType::Double)), 0xB0 => I::Return(Some(LocalType::Reference)), 0xB1 => I::Return(None),
        0xBE => I::ArrayLength, 0xBF => I::Throw,
        0xC2 => I::Monitor(MonitorOperation::Enter), 0xC3 => I::Monitor(MonitorOperation::Exit),
        _ => return None,
    })
}
pub fn all() -> Vec<u8> { (0..=255u8).filter(|o| simple(*o).is_some()).collect() }
/// The other way of spelling an int conversion.
pub fn alternative(op: u8) -> Option<I> {
    Some(match op { 0x85 => I::Conversion(N::Int, N::Long), 0x86 => I::Conversion(N::Int, N::Float), 0x87 => I::Conversion(N::Int, N::Double), _ => return None })
}
pub fn opcode(i: &I) -> Option<u8> {
    let i = match i {
        I::Conversion(N::Int, N::Long) => I::ConvertInt(BitType::Long),
        I::Conversion(N::Int, N::Float) => I::ConvertInt(BitType::Float),
        I::Conversion(N::Int, N::Double) => I::ConvertInt(BitType::Double),
        o => o.clone(),
    };
    thread_local! { static ALL: Vec<(u8, I)> = all().into_iter().map(|o| (o, simple(o).unwrap())).collect(); }
    ALL.with(|a| a.iter().find(|x| x.1 == i).map(|x| x.0))
}
/// Instructions that stand for no bytes at all.
pub fn is_empty(i: &I) -> bool {
    match i {
        I::Label(_) | I::LineNumber(_) | I::ConvertInt(BitType::Int) => true,
        I::Conversion(a, b) => a == b,
        _ => false,
    }
}
pub fn cond(op: u8) -> Option<JumpCondition> {
    use JumpCondition::*;
    Some(match op {
        0x99 => IntegerEqualsZero, 0x9A => IntegerNotEqualsZero, 0x9B => IntegerLessThanZero, 0x9C => IntegerGreaterThanOrEqualsZero,
        0x9D => IntegerGreaterThanZero, 0x9E => IntegerLessThanOrEqualsZero, 0x9F => IntegerEquals, 0xA0 => IntegerNotEquals,
        0xA1 => IntegerLessThan, 0xA2 => IntegerGreaterThanOrEquals, 0xA3 => IntegerGreaterThan, 0xA4 => IntegerLessThanOrEquals,
        0xA5 => ReferenceEquals, 0xA6 => ReferenceNotEquals, 0xA7 => Always, 0xC6 => IsNull, 0xC7 => IsNonNull,
        _ => return None,
    })
}
pub fn cond_op(c: JumpCondition) -> u8 { (0x99..=0xC7u8).find(|o| cond(*o) == Some(c)).unwrap() }
