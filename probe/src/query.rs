//! constructors, classifications and checks (`of_*`), each beside what it is documented to mean (`is_*`)
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};
use std::borrow::Cow;
use wtf_8::Wtf8Str;

type S = Cow<'static, Wtf8Str>;

macro_rules! pairs {
    ($($a:ident $b:ident ($($x:ident : $t:ty),*) -> $r:ty { $f:expr } { $g:expr })*) => {
        $(pub fn $a($($x: $t),*) -> $r { $f }
          pub fn $b($($x: $t),*) -> $r { $g })*
    };
}

pairs! {
    of_getstatic is_getstatic(m: MemberRef) -> Instruction { Instruction::getstatic(m) }
        { Instruction::Field(GetOrPut::Get, MemberType::Static, OrDynamic::Static(m)) }
    of_getstatic_dynamic is_getstatic_dynamic(m: Dynamic) -> Instruction { Instruction::getstatic(m) }
        { Instruction::Field(GetOrPut::Get, MemberType::Static, OrDynamic::Dynamic(m)) }
    of_invokevirtual is_invokevirtual(m: MemberRef) -> Instruction { Instruction::invokevirtual(m) }
        { Instruction::InvokeExact(MemberType::Virtual, OrDynamic::Static(m)) }
    of_invokestatic is_invokestatic(m: MemberRef) -> Instruction { Instruction::invokestatic(m) }
        { Instruction::InvokeExact(MemberType::Static, OrDynamic::Static(m)) }
    of_store is_store(t: LocalType, i: u16) -> Instruction { Instruction::store(t, i) }
        { Instruction::LocalVariable(LoadOrStore::Store, t, i) }
    of_load is_load(t: LocalType, i: u16) -> Instruction { Instruction::load(t, i) }
        { Instruction::LocalVariable(LoadOrStore::Load, t, i) }
    of_iop is_iop(o: IntOperation) -> Instruction { Instruction::iop(o) }
        { Instruction::IntOperation(IntType::Int, o) }
    of_iadd is_iadd() -> Instruction { Instruction::iadd() } { Instruction::IntOperation(IntType::Int, IntOperation::Add) }
    of_isub is_isub() -> Instruction { Instruction::isub() } { Instruction::IntOperation(IntType::Int, IntOperation::Subtract) }
    of_irem is_irem() -> Instruction { Instruction::irem() } { Instruction::IntOperation(IntType::Int, IntOperation::Remainder) }
    of_imul is_imul() -> Instruction { Instruction::imul() } { Instruction::IntOperation(IntType::Int, IntOperation::Multiply) }
    of_ineg is_ineg() -> Instruction { Instruction::ineg() } { Instruction::IntOperation(IntType::Int, IntOperation::Negate) }
    of_ifeq is_ifeq(l: Label) -> Instruction { Instruction::ifeq(l) } { Instruction::Jump(JumpCondition::IntegerEqualsZero, l) }
    of_if_icmpeq is_if_icmpeq(l: Label) -> Instruction { Instruction::if_icmpeq(l) } { Instruction::Jump(JumpCondition::IntegerEquals, l) }
    of_if_icmpne is_if_icmpne(l: Label) -> Instruction { Instruction::if_icmpne(l) } { Instruction::Jump(JumpCondition::IntegerNotEquals, l) }
    of_if_icmple is_if_icmple(l: Label) -> Instruction { Instruction::if_icmple(l) } { Instruction::Jump(JumpCondition::IntegerLessThanOrEquals, l) }
    of_if_icmpgt is_if_icmpgt(l: Label) -> Instruction { Instruction::if_icmpgt(l) } { Instruction::Jump(JumpCondition::IntegerGreaterThan, l) }
    of_negation is_negation(c: JumpCondition) -> Option<JumpCondition> { -c } { negated(c) }
    of_negation_ref is_negation_ref(c: JumpCondition) -> Option<JumpCondition> { -&c } { negated(c) }
    of_wide_type is_wide_type(t: Type) -> bool { t.is_wide() } { matches!(t, Type::Long | Type::Double) }
    of_method_type is_method_type(t: Type) -> bool { t.is_method() } { matches!(t, Type::Method { .. }) }
    of_as_method is_as_method(t: Type) -> Option<(Vec<Type>, Option<Box<Type>>)>
        { t.as_method().map(|(p, r)| (p.clone(), r.clone())) }
        { if let Type::Method { parameters, ret } = t { Some((parameters, ret)) } else { None } }
    of_new_method is_new_method(p: Vec<Type>, r: Option<Type>) -> Type { Type::method(p, r) }
        { Type::Method { parameters: p, ret: match r { Some(t) => Some(Box::new(t)), None => None } } }
    of_reference is_reference(s: S) -> Type { Type::reference(s) } { Type::Ref(s) }
    of_wide_constant is_wide_constant(c: Constant) -> bool { c.is_wide() } { matches!(c, Constant::I64(_) | Constant::F64(_)) }
    of_string is_string(s: S) -> Constant { Constant::string(s) } { Constant::String(s) }
    of_int is_int(i: i32) -> Constant { Constant::from(i) } { Constant::I32(i) }
    of_wide_entry is_wide_entry(e: RawConstantEntry) -> bool { e.is_wide() }
        { matches!(e, RawConstantEntry::Long(_) | RawConstantEntry::Double(_)) }
    of_entry_size is_entry_size(e: RawConstantEntry) -> u16 { e.size() }
        { if matches!(e, RawConstantEntry::Long(_) | RawConstantEntry::Double(_)) { 2 } else { 1 } }
    of_wide_verification is_wide_verification(v: VerificationType) -> bool { v.is_wide() }
        { matches!(v, VerificationType::Long | VerificationType::Double) }
    of_handle_kind is_handle_kind(k: u8) -> Option<u8> { MethodHandleKind::try_from(k).ok().map(|k| k as u8) }
        { if k >= 1 && k <= 9 { Some(k) } else { None } }
    of_stack_of_float is_stack_of_float(f: FloatType) -> StackValueType { f.into() }
        { match f { FloatType::Double => StackValueType::Two, FloatType::Float => StackValueType::One } }
    of_local_of_float is_local_of_float(f: FloatType) -> LocalType { f.into() }
        { match f { FloatType::Double => LocalType::Double, FloatType::Float => LocalType::Float } }
    of_constant_ordynamic is_constant_ordynamic(c: Constant) -> OrDynamic<Constant> { c.into() } { OrDynamic::Static(c) }
    of_member_ordynamic is_member_ordynamic(m: MemberRef) -> OrDynamic<MemberRef> { m.into() } { OrDynamic::Static(m) }
    of_dynamic_ordynamic is_dynamic_ordynamic(d: Dynamic) -> OrDynamic<Type> { d.into() } { OrDynamic::Dynamic(d) }
    of_map_static is_map_static(d: OrDynamic<MemberRef>) -> OrDynamic<Constant> { d.map_static(Constant::Member) }
        { match d { OrDynamic::Dynamic(d) => OrDynamic::Dynamic(d), OrDynamic::Static(m) => OrDynamic::Static(Constant::Member(m)) } }
    of_float is_float(f: f32) -> TotalF32 { f.into() } { TotalF32(f) }
    of_double is_double(f: f64) -> TotalF64 { f.into() } { TotalF64(f) }
    of_float_back is_float_back(f: TotalF32) -> f32 { f.into() } { f.0 }
    of_double_back is_double_back(f: TotalF64) -> f64 { f.into() } { f.0 }
    of_raw_attribute is_raw_attribute(n: S, b: Vec<u8>) -> RawAttribute { RawAttribute::new(n, b) }
        { RawAttribute { name: n, inner: Cow::Owned(b) } }
    of_export is_export(p: S, f: ExOpFlags, t: Vec<S>) -> Export { Export::new(p, f, t) }
        { Export { package: p, flags: f, to: t } }
    of_j8 is_j8() -> JavaVersion { JavaVersion::J8 } { JavaVersion { minor: 0, major: MajorVersion::J8 } }
    of_opcode is_opcode(c: JumpCondition) -> u8 { c.into() } { opcode(c) }
    of_handle_check is_handle_check(h: MethodHandle) -> bool { h.check().is_ok() } { valid(&h) }
}

fn negated(c: JumpCondition) -> Option<JumpCondition> {
    use JumpCondition::*;
    match c {
        ReferenceEquals => Some(ReferenceNotEquals),
        ReferenceNotEquals => Some(ReferenceEquals),
        IntegerEquals => Some(IntegerNotEquals),
        IntegerNotEquals => Some(IntegerEquals),
        IntegerLessThan => Some(IntegerGreaterThanOrEquals),
        IntegerGreaterThanOrEquals => Some(IntegerLessThan),
        IntegerGreaterThan => Some(IntegerLessThanOrEquals),
        IntegerLessThanOrEquals => Some(IntegerGreaterThan),
        IntegerEqualsZero => Some(IntegerNotEqualsZero),
        IntegerNotEqualsZero => Some(IntegerEqualsZero),
        IntegerLessThanZero => Some(IntegerGreaterThanOrEqualsZero),
        IntegerGreaterThanOrEqualsZero => Some(IntegerLessThanZero),
        IntegerGreaterThanZero => Some(IntegerLessThanOrEqualsZero),
        IntegerLessThanOrEqualsZero => Some(IntegerGreaterThanZero),
        IsNull => Some(IsNonNull),
        IsNonNull => Some(IsNull),
        Always => None,
    }
}

/// JVMS 6.5
fn opcode(c: JumpCondition) -> u8 {
    use JumpCondition::*;
    match c {
        IntegerEqualsZero => 153,
        IntegerNotEqualsZero => 154,
        IntegerLessThanZero => 155,
        IntegerGreaterThanOrEqualsZero => 156,
        IntegerGreaterThanZero => 157,
        IntegerLessThanOrEqualsZero => 158,
        IntegerEquals => 159,
        IntegerNotEquals => 160,
        IntegerLessThan => 161,
        IntegerGreaterThanOrEquals => 162,
        IntegerGreaterThan => 163,
        IntegerLessThanOrEquals => 164,
        ReferenceEquals => 165,
        ReferenceNotEquals => 166,
        Always => 167,
        IsNull => 198,
        IsNonNull => 199,
    }
}

/// JVMS 4.4.8 and the documentation of `MethodHandle::check`
fn valid(h: &MethodHandle) -> bool {
    let method = matches!(h.member.descriptor, Type::Method { .. });
    let init = &*h.member.name == "<init>";
    let clinit = &*h.member.name == "<clinit>";
    match h.kind {
        MethodHandleKind::GetField | MethodHandleKind::GetStatic | MethodHandleKind::PutField | MethodHandleKind::PutStatic => !method,
        MethodHandleKind::NewInvokeSpecial => method && init,
        MethodHandleKind::InvokeVirtual | MethodHandleKind::InvokeStatic | MethodHandleKind::InvokeSpecial | MethodHandleKind::InvokeInterface => method && !init && !clinit,
    }
}
