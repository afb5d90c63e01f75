PRELUDE = r'''#![allow(unused_imports, dead_code)]
use coffer::prelude::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use std::borrow::Cow;
use wtf_8::{Wtf8Str, Wtf8String};
fn cow(s: &str) -> Cow<'static, Wtf8Str> { Cow::Owned(Wtf8String::from(s.to_string())) }
/// write with a constant pool writer, read back with a constant pool reader
fn back<T: ConstantPoolReadWrite>(x: &T) -> std::result::Result<T, String> {
    let mut cp = VecCp::new();
    let mut body = Vec::new();
    x.write_to(&mut cp, &mut body).map_err(|e| format!("write {e:?}"))?;
    let mut pool = Vec::new();
    cp.write_to(&mut pool).map_err(|e| format!("pool {e:?}"))?;
    let mut rd = MapCp::read_from(&mut pool.as_slice()).map_err(|e| format!("readpool {e:?}"))?;
    let mut s = body.as_slice();
    let y = T::read_from(&mut rd, &mut s).map_err(|e| format!("read {e:?}"))?;
    if !s.is_empty() { return Err("bytes left".into()); }
    Ok(y)
}
fn body<T: ConstantPoolReadWrite>(x: &T) -> Vec<u8> {
    let mut cp = VecCp::new();
    let mut b = Vec::new();
    x.write_to(&mut cp, &mut b).unwrap();
    b
}
fn die(s: &str) -> ! { println!("BROKEN: {s}"); std::process::exit(1) }
'''
SEEDS = [
 dict(id="c01-frame-threshold", property="C01", needs="a frame delta of exactly 64",
  breaks="a same_frame with delta 64 is written in the short form, whose tag belongs to another frame kind",
  edits=[("src/code.rs", "RawFrame::Same(off @ 0..=63) =>", "RawFrame::Same(off @ 0..=64) =>")],
  main=r'''
fn main() {
    for d in [0u16, 63, 64, 65, 300] {
        let f = RawFrame::Same(d);
        match back(&f) { Ok(g) if g == f => {}, x => die(&format!("{f:?} -> {x:?}")) }
    }
}'''),
 dict(id="c01-empty-option", property="C01", needs="an optional string that is present but empty",
  breaks="a present empty name is written as absent",
  edits=[("src/helper.rs", "        if let Some(x) = x {\n            cp.insert_indirect_str(TAG, x.clone())", "        if let Some(x) = x.as_ref().filter(|x| !x.is_empty()) {\n            cp.insert_indirect_str(TAG, x.clone())")],
  main=r'''
fn main() {
    for s in ["a/B", ""] {
        let i = InnerClass { inner_fqname: cow("x/Y"), outer_fqname: Some(cow(s)), inner_name: None, inner_access: InnerClassFlags::empty() };
        match back(&i) { Ok(g) if g == i => {}, x => die(&format!("{i:?} -> {x:?}")) }
    }
}'''),
 dict(id="c01-handle-itf", property="C01", needs="a method handle of kind invokeSpecial or invokeStatic on an interface method",
  breaks="the interface flag of such a handle is lost",
  edits=[("src/rw.rs", "        let mem = self.insert_member(handle.member);\n", "        let mut member = handle.member;\n        if !matches!(handle.kind, MethodHandleKind::InvokeInterface) {\n            member.itfs = false;\n        }\n        let mem = self.insert_member(member);\n")],
  main=r'''
fn main() {
    use MethodHandleKind::*;
    for kind in [InvokeStatic, InvokeSpecial, InvokeInterface, InvokeVirtual] {
        for itfs in [false, true] {
            let h = MethodHandle { kind: kind.clone(), member: MemberRef { owner: cow("a/B"), name: cow("m"), descriptor: Type::method(Vec::<Type>::new(), None), itfs } };
            let b = BootstrapMethod { handle: h, arguments: vec![] };
            match back(&b) { Ok(g) if g == b => {}, x => die(&format!("{b:?} -> {x:?}")) }
        }
    }
}'''),
]
