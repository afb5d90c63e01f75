//! descriptors and signatures: text to value and back
use coffer::prelude::*;
use std::fmt::{Display, Formatter};
use std::str::FromStr;
use wtf_8::{Wtf8Str, Wtf8String};

macro_rules! texts {
    ($($p:ident $d:ident $t:ty),*) => { $(
        pub fn $p(s: &str) -> Result<$t> { <$t as FromStr>::from_str(s) }
        pub fn $d(t: &$t, f: &mut Formatter<'_>) -> std::fmt::Result { Display::fmt(t, f) }
    )* };
}
texts!(
    parse_simple show_simple SimpleClassTypeSignature,
    parse_class show_class ClassSignature,
    parse_method show_method MethodSignature,
    parse_field show_field FieldSignature,
    parse_tysig show_tysig TypeSignature,
    parse_ref show_ref RefTypeSignature,
    parse_classty show_classty ClassTypeSignature,

    parse_param show_param TypeParameter,
    parse_throws show_throws Throws
);
pub fn parse_desc(s: &Wtf8Str) -> Result<Type> {
    parse_type(s)
}
pub fn write_desc(t: &Type, s: &mut Wtf8String) {
    write_type(t, s)
}
pub fn show_desc(t: &Type, f: &mut Formatter<'_>) -> std::fmt::Result {
    Display::fmt(t, f)
}
pub fn array(dim: u8, t: Type) -> Type {
    Type::array(dim, t)
}
pub fn show_arg(t: &TypeArgument, f: &mut Formatter<'_>) -> std::fmt::Result {
    Display::fmt(t, f)
}
