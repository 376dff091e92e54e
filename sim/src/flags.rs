//! Flags by name: what a user writes as `ACC_FINAL` has the value the class file format gives that name.
use coffer::prelude::*;

macro_rules! flags {
    ($($ty:ident $to:ident $from:ident { $($name:ident = $bit:literal),* })*) => { $(
        pub fn $to(bits: u16) -> $ty {
            let mut f = $ty::empty();
            $( if bits & $bit != 0 { f |= $ty::$name } )*
            f
        }
        pub fn $from(f: $ty) -> u16 {
            let mut bits = 0;
            $( if f.contains($ty::$name) { bits |= $bit } )*
            bits
        }
    )* };
}
flags! {
    ClassFlags class class_bits { ACC_PUBLIC = 0x0001, ACC_FINAL = 0x0010, ACC_SUPER = 0x0020, ACC_INTERFACE = 0x0200, ACC_ABSTRACT = 0x0400,
        ACC_SYNTHETIC = 0x1000, ACC_ANNOTATION = 0x2000, ACC_ENUM = 0x4000, ACC_MODULE = 0x8000 }
    FieldFlags field field_bits { ACC_PUBLIC = 0x0001, ACC_PRIVATE = 0x0002, ACC_PROTECTED = 0x0004, ACC_STATIC = 0x0008, ACC_FINAL = 0x0010,
        ACC_VOLATILE = 0x0040, ACC_TRANSIENT = 0x0080, ACC_SYNTHETIC = 0x1000, ACC_ENUM = 0x4000 }
    MethodFlags method method_bits { ACC_PUBLIC = 0x0001, ACC_PRIVATE = 0x0002, ACC_PROTECTED = 0x0004, ACC_STATIC = 0x0008, ACC_FINAL = 0x0010,
        ACC_SYNCHRONIZED = 0x0020, ACC_BRIDGE = 0x0040, ACC_VARARGS = 0x0080, ACC_NATIVE = 0x0100, ACC_ABSTRACT = 0x0400, ACC_STRICT = 0x0800,
        ACC_SYNTHETIC = 0x1000 }
    InnerClassFlags inner inner_bits { ACC_PUBLIC = 0x0001, ACC_PRIVATE = 0x0002, ACC_PROTECTED = 0x0004, ACC_STATIC = 0x0008, ACC_FINAL = 0x0010,
        ACC_INTERFACE = 0x0200, ACC_ABSTRACT = 0x0400, ACC_SYNTHETIC = 0x1000, ACC_ANNOTATION = 0x2000, ACC_ENUM = 0x4000 }
    ModuleFlags module module_bits { ACC_OPEN = 0x0020, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000 }
    RequireFlags require require_bits { ACC_TRANSITIVE = 0x0020, ACC_STATIC_PHASE = 0x0040, ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000 }
    ExOpFlags exop exop_bits { ACC_SYNTHETIC = 0x1000, ACC_MANDATED = 0x8000 }
}
