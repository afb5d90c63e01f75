//! Never executed.
use coffer::prelude::*;

// flag constants, one root each, so that their values can be evaluated from MIR
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_PUBLIC() -> ClassFlags {
    ClassFlags::ACC_PUBLIC
}
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_FINAL() -> ClassFlags {
    ClassFlags::ACC_FINAL
}
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_SUPER() -> ClassFlags {
    ClassFlags::ACC_SUPER
}
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_INTERFACE() -> ClassFlags {
    ClassFlags::ACC_INTERFACE
}
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_ABSTRACT() -> ClassFlags {
    ClassFlags::ACC_ABSTRACT
}
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_SYNTHETIC() -> ClassFlags {
    ClassFlags::ACC_SYNTHETIC
}
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_ANNOTATION() -> ClassFlags {
    ClassFlags::ACC_ANNOTATION
}
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_ENUM() -> ClassFlags {
    ClassFlags::ACC_ENUM
}
#[allow(non_snake_case)]
pub fn flag___ClassFlags__ACC_MODULE() -> ClassFlags {
    ClassFlags::ACC_MODULE
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_PUBLIC() -> FieldFlags {
    FieldFlags::ACC_PUBLIC
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_PRIVATE() -> FieldFlags {
    FieldFlags::ACC_PRIVATE
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_PROTECTED() -> FieldFlags {
    FieldFlags::ACC_PROTECTED
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_STATIC() -> FieldFlags {
    FieldFlags::ACC_STATIC
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_FINAL() -> FieldFlags {
    FieldFlags::ACC_FINAL
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_VOLATILE() -> FieldFlags {
    FieldFlags::ACC_VOLATILE
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_TRANSIENT() -> FieldFlags {
    FieldFlags::ACC_TRANSIENT
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_SYNTHETIC() -> FieldFlags {
    FieldFlags::ACC_SYNTHETIC
}
#[allow(non_snake_case)]
pub fn flag___FieldFlags__ACC_ENUM() -> FieldFlags {
    FieldFlags::ACC_ENUM
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_PUBLIC() -> MethodFlags {
    MethodFlags::ACC_PUBLIC
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_PRIVATE() -> MethodFlags {
    MethodFlags::ACC_PRIVATE
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_PROTECTED() -> MethodFlags {
    MethodFlags::ACC_PROTECTED
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_STATIC() -> MethodFlags {
    MethodFlags::ACC_STATIC
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_FINAL() -> MethodFlags {
    MethodFlags::ACC_FINAL
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_SYNCHRONIZED() -> MethodFlags {
    MethodFlags::ACC_SYNCHRONIZED
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_BRIDGE() -> MethodFlags {
    MethodFlags::ACC_BRIDGE
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_VARARGS() -> MethodFlags {
    MethodFlags::ACC_VARARGS
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_NATIVE() -> MethodFlags {
    MethodFlags::ACC_NATIVE
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_ABSTRACT() -> MethodFlags {
    MethodFlags::ACC_ABSTRACT
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_STRICT() -> MethodFlags {
    MethodFlags::ACC_STRICT
}
#[allow(non_snake_case)]
pub fn flag___MethodFlags__ACC_SYNTHETIC() -> MethodFlags {
    MethodFlags::ACC_SYNTHETIC
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_PUBLIC() -> InnerClassFlags {
    InnerClassFlags::ACC_PUBLIC
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_PRIVATE() -> InnerClassFlags {
    InnerClassFlags::ACC_PRIVATE
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_PROTECTED() -> InnerClassFlags {
    InnerClassFlags::ACC_PROTECTED
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_STATIC() -> InnerClassFlags {
    InnerClassFlags::ACC_STATIC
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_FINAL() -> InnerClassFlags {
    InnerClassFlags::ACC_FINAL
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_INTERFACE() -> InnerClassFlags {
    InnerClassFlags::ACC_INTERFACE
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_ABSTRACT() -> InnerClassFlags {
    InnerClassFlags::ACC_ABSTRACT
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_SYNTHETIC() -> InnerClassFlags {
    InnerClassFlags::ACC_SYNTHETIC
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_ANNOTATION() -> InnerClassFlags {
    InnerClassFlags::ACC_ANNOTATION
}
#[allow(non_snake_case)]
pub fn flag___InnerClassFlags__ACC_ENUM() -> InnerClassFlags {
    InnerClassFlags::ACC_ENUM
}
#[allow(non_snake_case)]
pub fn flag___MethodParameterFlags__ACC_FINAL() -> MethodParameterFlags {
    MethodParameterFlags::ACC_FINAL
}
#[allow(non_snake_case)]
pub fn flag___MethodParameterFlags__ACC_SYNTHETIC() -> MethodParameterFlags {
    MethodParameterFlags::ACC_SYNTHETIC
}
#[allow(non_snake_case)]
pub fn flag___MethodParameterFlags__ACC_MANDATED() -> MethodParameterFlags {
    MethodParameterFlags::ACC_MANDATED
}
#[allow(non_snake_case)]
pub fn flag___ModuleFlags__ACC_OPEN() -> ModuleFlags {
    ModuleFlags::ACC_OPEN
}
#[allow(non_snake_case)]
pub fn flag___ModuleFlags__ACC_SYNTHETIC() -> ModuleFlags {
    ModuleFlags::ACC_SYNTHETIC
}
#[allow(non_snake_case)]
pub fn flag___ModuleFlags__ACC_MANDATED() -> ModuleFlags {
    ModuleFlags::ACC_MANDATED
}
#[allow(non_snake_case)]
pub fn flag___RequireFlags__ACC_TRANSITIVE() -> RequireFlags {
    RequireFlags::ACC_TRANSITIVE
}
#[allow(non_snake_case)]
pub fn flag___RequireFlags__ACC_STATIC_PHASE() -> RequireFlags {
    RequireFlags::ACC_STATIC_PHASE
}
#[allow(non_snake_case)]
pub fn flag___RequireFlags__ACC_SYNTHETIC() -> RequireFlags {
    RequireFlags::ACC_SYNTHETIC
}
#[allow(non_snake_case)]
pub fn flag___RequireFlags__ACC_MANDATED() -> RequireFlags {
    RequireFlags::ACC_MANDATED
}
#[allow(non_snake_case)]
pub fn flag___ExOpFlags__ACC_SYNTHETIC() -> ExOpFlags {
    ExOpFlags::ACC_SYNTHETIC
}
#[allow(non_snake_case)]
pub fn flag___ExOpFlags__ACC_MANDATED() -> ExOpFlags {
    ExOpFlags::ACC_MANDATED
}
