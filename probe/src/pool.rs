//! the constant pool: its writer, its reader and the typed lookups
use crate::{Dst, Src};
use coffer::prelude::*;
use coffer::ReadWrite;

pub fn new() -> VecCp {
    VecCp::new()
}
pub fn insert(cp: &mut VecCp, e: RawConstantEntry) -> u16 {
    cp.insert_raw(e)
}
pub fn insert_bsm(cp: &mut VecCp, b: BootstrapMethod) -> u16 {
    cp.insert_bsm(b)
}
pub fn write(cp: &VecCp, w: &mut Dst) -> Result<()> {
    cp.write_to(w)
}
pub fn read(r: &mut Src) -> Result<MapCp> {
    <MapCp as ReadWrite>::read_from(r)
}
pub fn get(cp: &mut MapCp, i: u16) -> Option<RawConstantEntry> {
    cp.read_raw(i)
}
pub fn later(cp: &mut MapCp, i: u16, d: Dynamic) {
    cp.resolve_later(i, d.bsm)
}
pub fn resolve(cp: &mut MapCp, b: &[BootstrapMethod]) -> Result<()> {
    cp.bootstrap_methods(b)
}
macro_rules! lookups {
    ($($n:ident : $t:ty),*) => { $(pub fn $n(cp: &mut MapCp, i: u16) -> Option<$t> { cp.$n(i) })* };
}
lookups!(read_int: i32, read_long: i64, read_float: f32, read_double: f64, read_wtf8: Cow<'static, wtf_8::Wtf8Str>,
    read_class: Cow<'static, wtf_8::Wtf8Str>, read_nameandtype: (Cow<'static, wtf_8::Wtf8Str>, Type), read_constant: Constant,
    read_member: MemberRef, read_method_handle: MethodHandle, read_dynamic: Dynamic, read_invokedynamic: Dynamic);
pub fn read_module(cp: &mut MapCp, i: u16) -> Option<Cow<'static, wtf_8::Wtf8Str>> {
    cp.read_indirect_str(19, i)
}
pub fn read_package(cp: &mut MapCp, i: u16) -> Option<Cow<'static, wtf_8::Wtf8Str>> {
    cp.read_indirect_str(20, i)
}
pub fn read_string(cp: &mut MapCp, i: u16) -> Option<Cow<'static, wtf_8::Wtf8Str>> {
    cp.read_indirect_str(8, i)
}
macro_rules! insertions {
    ($($n:ident : $t:ty),*) => { $(pub fn $n(cp: &mut VecCp, x: $t) -> u16 { cp.$n(x) })* };
}
insertions!(insert_int: i32, insert_long: i64, insert_float: f32, insert_double: f64, insert_wtf8: Cow<'static, wtf_8::Wtf8Str>,
    insert_class: Cow<'static, wtf_8::Wtf8Str>, insert_package: Cow<'static, wtf_8::Wtf8Str>);
pub fn insert_module_str(cp: &mut VecCp, x: Cow<'static, wtf_8::Wtf8Str>) -> u16 {
    cp.insert_indirect_str(19, x)
}
pub fn insert_package_str(cp: &mut VecCp, x: Cow<'static, wtf_8::Wtf8Str>) -> u16 {
    cp.insert_indirect_str(20, x)
}
pub fn insert_class_str(cp: &mut VecCp, x: Cow<'static, wtf_8::Wtf8Str>) -> u16 {
    cp.insert_indirect_str(7, x)
}
pub fn insert_string_str(cp: &mut VecCp, x: Cow<'static, wtf_8::Wtf8Str>) -> u16 {
    cp.insert_indirect_str(8, x)
}
