import os
PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")).read().split("PRELUDE = r'''")[1].split("'''")[0] + r'''
use coffer::code::*;
use coffer::total_floats::*;
use std::str::FromStr;
fn class(attributes: Vec<ClassAttribute>) -> Class {
    Class { version: JavaVersion::J8, access: ClassFlags::ACC_PUBLIC, name: cow("A"), super_name: Some(cow("B")), interfaces: vec![], fields: vec![], methods: vec![], attributes }
}
fn bytes(c: &Class) -> Vec<u8> { let mut b = vec![]; c.write_to(&mut b).unwrap(); b }
fn handle(n: &str) -> MethodHandle {
    MethodHandle { kind: MethodHandleKind::InvokeStatic, member: MemberRef { owner: cow("A"), name: cow(n), descriptor: Type::method(vec![], None), itfs: false } }
}
fn lone(u: u32) -> Wtf8String { let mut s = Wtf8String::new(); s.push(wtf_8::Codepoint::from_u32(u).unwrap()); s }
'''
SEEDS = [
 dict(id="c02-main-class", property="C02", needs="a module with a main class, read by anything but this library",
  breaks="ModuleMainClass points at a CONSTANT_Module instead of a CONSTANT_Class, the same in both directions",
  edits=[("src/attr.rs", 'ModuleMainClass(#[coffer(as = "h::Class")] Cow', 'ModuleMainClass(#[coffer(as = "h::Module")] Cow')],
  main=r'''
fn main() {
    let mut cp = VecCp::new();
    let mut b = vec![];
    ClassAttribute::ModuleMainClass(cow("M")).write_to(&mut cp, &mut b).unwrap();
    let mut pool = vec![];
    cp.write_to(&mut pool).unwrap();
    let mut rd = MapCp::read_from(&mut pool.as_slice()).unwrap();
    let i = u16::from_be_bytes([b[6], b[7]]);
    if rd.read_class(i).is_none() { die(&format!("{:?}", rd.entries)) }
}'''),
 dict(id="c05-bsm-dedup", property="C05", needs="a class whose bootstrap method table holds an entry twice in a row",
  breaks="the repeated entry is dropped, so indices into the table shift",
  edits=[("src/clazz.rs", "        cp.bsm = bsm;", "        bsm.dedup();\n        cp.bsm = bsm;")],
  main=r'''
fn main() {
    let m = |n: &str| BootstrapMethod { handle: handle(n), arguments: vec![] };
    for l in [vec![], vec![m("a")], vec![m("a"), m("b")], vec![m("a"), m("a"), m("b")]] {
        let c = class(vec![ClassAttribute::BootstrapMethods(l.clone())]);
        let d = Class::read_from(&mut bytes(&c).as_slice()).unwrap();
        if d.attributes != c.attributes { die(&format!("{:?} -> {:?}", c.attributes, d.attributes)) }
    }
}'''),
 dict(id="c06-bsm-index", property="C06", needs="more than 256 bootstrap methods in one class",
  breaks="the index of a new bootstrap method wraps at 256",
  edits=[("src/cp.rs", "let ret = self.bsm.len() as u16;", "let ret = self.bsm.len() as u8 as u16;")],
  main=r'''
fn main() {
    let mut cp = VecCp::new();
    for i in 0..300 {
        let got = cp.insert_bsm(BootstrapMethod { handle: handle(&format!("m{i}")), arguments: vec![] });
        if got != i { die(&format!("{i} -> {got}")) }
    }
}'''),
 dict(id="c06-float-zero", property="C06", needs="the float constant -0.0 inserted through insert_float",
  breaks="the pool holds 0.0 instead",
  edits=[("src/rw.rs", "RawConstantEntry::Float(TotalF32(f))", "RawConstantEntry::Float(TotalF32(f + 0.0))")],
  main=r'''
fn main() {
    let mut cp = VecCp::new();
    for f in [1.0f32, 0.0, -0.0, f32::INFINITY] {
        let i = cp.insert_float(f);
        let mut pool = vec![];
        cp.write_to(&mut pool).unwrap();
        let mut rd = MapCp::read_from(&mut pool.as_slice()).unwrap();
        let g = rd.read_float(i).unwrap();
        if g.to_bits() != f.to_bits() { die(&format!("{f:?} -> {g:?}")) }
    }
}'''),
 dict(id="c07-last-lead", property="C07", needs="a string whose only supplementary characters are above U+10FBFF",
  breaks="the scan does not see the lead surrogates ED AF xx, so the pair stays two surrogates",
  edits=[("src/mod_utf8.rs", "                    0xA0..=0xAF => {\n                        is_high", "                    0xA0..=0xAE => {\n                        is_high")],
  main=r'''
fn main() {
    for c in ['a', '\u{0}', '\u{7ff}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{fffff}', '\u{100000}', '\u{10fbff}', '\u{10fc00}', '\u{10ffff}'] {
        let s = Wtf8String::from(c.to_string());
        let m = coffer::mod_utf8::string_to_modified_utf8(&s);
        match coffer::mod_utf8::modified_utf8_to_string(&m) { Ok(t) if t == s => {}, x => die(&format!("{c:?} -> {m:x?} -> {x:?}")) }
    }
}'''),
 dict(id="c08-last-trail", property="C08", needs="pushing U+DFFF after a lead surrogate",
  breaks="the pair is not joined, so the string is not well-formed WTF-8",
  edits=[("wtf8/src/lib.rs", "if let trail @ 0xDC00..=0xDFFF = code_point.to_u32() {", "if let trail @ 0xDC00..=0xDFFE = code_point.to_u32() {")],
  main=r'''
fn main() {
    for t in [0xDC00, 0xDD12, 0xDFFE, 0xDFFF] {
        let mut s = lone(0xD83D);
        s.push(wtf_8::Codepoint::from_u32(t).unwrap());
        if s.codepoints().count() != 1 { die(&format!("{t:x}: {s:?}")) }
    }
}'''),
 dict(id="c08-last-surrogates", property="C08", needs="a string with a surrogate in U+DFC0..=U+DFFF",
  breaks="the surrogate is not found, so the string is handed out as if it were UTF-8",
  edits=[("wtf8/src/lib.rs", "if b2 >= 0xA0 => {", "if (0xA0..0xBF).contains(&b2) => {")],
  main=r"""
fn main() {
    for u in [0xD7FF, 0xD800, 0xD83F, 0xD840, 0xDFFF, 0xE000] {
        if lone(u).as_str().is_some() != char::from_u32(u).is_some() { die(&format!("{u:x}")) }
    }
}"""),
 dict(id="c09-dimensions", property="C09", needs="an array type of more than 127 dimensions",
  breaks="only dimensions modulo 128 are printed",
  edits=[("src/ty.rs", "for _ in 0..*dim {", "for _ in 0..(*dim & 0x7f) {")],
  main=r'''
fn main() {
    for d in [1u8, 2, 127, 128, 200, 255] {
        let t = Type::array(d, Type::Int);
        let s = Wtf8String::from(&t);
        match parse_type(&s) { Ok(u) if u == t => {}, x => die(&format!("{d} -> {x:?}")) }
    }
}'''),
 dict(id="c09-lossy-name", property="C09", needs="a class name with an unpaired surrogate",
  breaks="the surrogate becomes U+FFFD in the descriptor",
  edits=[("src/ty.rs", "s.push_wtf8(t);", "s.push_str(&t.to_string_lossy());")],
  main=r'''
fn main() {
    for n in [Wtf8String::from("a/B".to_string()), lone(0xD800), lone(0xDFFF)] {
        let t = Type::Ref(Cow::Owned(n));
        match back(&t) { Ok(u) if u == t => {}, x => die(&format!("{t:?} -> {x:?}")) }
    }
}'''),
 dict(id="c10-one-suffix", property="C10", needs="a class type nested in two levels of parameterised classes (A<..>.B<..>.C)",
  breaks="at most one suffix is read",
  edits=[("src/signature.rs", "    while i.as_bytes().first() == Some(&b'.') {", "    if i.as_bytes().first() == Some(&b'.') {")],
  main=r'''
fn main() {
    for s in ["La/A;", "La/A<TT;>.B;", "La/A<TT;>.B<TT;>.C;"] {
        match ClassTypeSignature::from_str(s) { Ok(c) if c.to_string() == s => {}, x => die(&format!("{s} -> {x:?}")) }
    }
}'''),
 dict(id="c10-repeated-argument", property="C10", needs="two equal type arguments in a row",
  breaks="the second one is dropped",
  edits=[("src/signature.rs", "            args.push(res.1);", "            if args.last() != Some(&res.1) {\n                args.push(res.1);\n            }")],
  main=r'''
fn main() {
    for s in ["La/A<*>;", "La/M<TK;TV;>;", "La/M<TK;TK;>;", "La/M<**>;"] {
        match ClassTypeSignature::from_str(s) { Ok(c) if c.to_string() == s => {}, x => die(&format!("{s} -> {x:?}")) }
    }
}'''),
 dict(id="c10-array-bound", property="C10", needs="a type parameter whose class bound is an array type",
  breaks="the bound is rejected",
  edits=[("src/signature.rs", "if let Some('T' | '[' | 'L') = chars", "if let Some('T' | 'L') = chars")],
  main=r'''
fn main() {
    for s in ["<T:La/A;>()V", "<T:TU;>()V", "<T::La/I;>()V", "<T:[I>()V"] {
        match MethodSignature::from_str(s) { Ok(c) if c.to_string() == s => {}, x => die(&format!("{s} -> {x:?}")) }
    }
}'''),
 dict(id="c11-unterminated", property="C11", needs="a descriptor that ends inside a class name",
  breaks="the reader panics instead of reporting the error",
  edits=[("src/ty.rs", "while c.as_str().codepoints().next().unwrap_or_else(|| ';'.into()) != ';' {", "while c.as_str().codepoints().next().unwrap_or_else(|| '/'.into()) != ';' {")],
  main=r'''
fn main() {
    for s in ["La;", "L", "La", "[La", "(La"] {
        let r = std::panic::catch_unwind(|| parse_type(&Wtf8String::from(s.to_string())).is_ok());
        if r.is_err() { die(s) }
    }
}'''),
 dict(id="c11-catch-index", property="C11", needs="a type annotation on a catch parameter whose exception table index is out of range",
  breaks="the reader panics instead of reporting the error",
  edits=[("src/code.rs", "                self.catches.get(idx as usize).cloned()", "                Some(self.catches[idx as usize].clone())")],
  main=r'''
fn main() {
    for n in [0u16, 1, 2, 65535] {
        let mut cp = VecCp::new();
        let name = cp.insert_wtf8(cow("RuntimeVisibleTypeAnnotations"));
        let ty = cp.insert_wtf8(cow("LA;"));
        let mut a = vec![0, 1, 0x42];
        a.extend_from_slice(&n.to_be_bytes());
        a.push(0);
        a.extend_from_slice(&ty.to_be_bytes());
        a.extend_from_slice(&[0, 0]);
        let mut b = vec![0, 0, 0, 0, 0, 0, 0, 2, 0, 0xb1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 0, 0, 1];
        b.extend_from_slice(&name.to_be_bytes());
        b.extend_from_slice(&(a.len() as u32).to_be_bytes());
        b.extend_from_slice(&a);
        let r = std::panic::catch_unwind(move || {
            let mut pool = vec![];
            cp.write_to(&mut pool).unwrap();
            let mut rd = MapCp::read_from(&mut pool.as_slice()).unwrap();
            Code::read_from(&mut rd, &mut b.as_slice()).is_ok()
        });
        match r { Ok(ok) if ok == (n == 0) => {}, x => die(&format!("{n} {x:?}")) }
    }
}'''),
 dict(id="c12-count-mask", property="C12", needs="a list of more than 65535 elements",
  breaks="the count is taken modulo 65536 while all elements are written",
  edits=[("src/helper.rs", "        writer: &mut W,\n    ) -> crate::Result<()> {\n        let len = x.len();\n", "        writer: &mut W,\n    ) -> crate::Result<()> {\n        let len = x.len() & 0xffff;\n")],
  main=r'''
fn main() {
    for n in [0usize, 1, 65535, 65536, 65540] {
        let mut cp = VecCp::new();
        let mut b = vec![];
        let r = ClassAttribute::NestMembers(vec![cow("A"); n]).write_to(&mut cp, &mut b);
        if r.is_ok() != (n <= 65535) { die(&format!("{n} {r:?}")) }
    }
}'''),
 dict(id="c13-short-write", property="C13", needs="a writer that takes fewer bytes than it is given",
  breaks="the rest of the class after the constant pool is lost and the write succeeds",
  edits=[("src/clazz.rs", "        writer.write_all(&buf)?;", "        writer.write(&buf)?;")],
  main=r'''
struct Slow(Vec<u8>);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(5); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let c = class(vec![ClassAttribute::SourceFile(cow("A.java"))]);
    let mut w = Slow(vec![]);
    c.write_to(&mut w).unwrap();
    if w.0 != bytes(&c) { die("short") }
}'''),
 dict(id="c14-preintern", property="C14", needs="an annotation with two or more elements",
  breaks="the names go into the constant pool in the order of a hash map, so the bytes differ from run to run",
  edits=[("src/annotation/mod.rs", "        size.write_to(writer)?;", "        size.write_to(writer)?;\n        for name in self.keys() {\n            cp.insert_wtf8(name.clone());\n        }")],
  main=r'''
fn main() {
    let make = || {
        let mut m = std::collections::HashMap::new();
        for i in 0..12 { m.insert(cow(&format!("n{i}")), AnnotationValue::Int(i)); }
        bytes(&class(vec![ClassAttribute::RuntimeVisibleAnnotations(vec![Annotation { annotation_type: Type::Ref(cow("A")), element_values: m }])]))
    };
    let a = make();
    for _ in 0..20 { if make() != a { die("different bytes") } }
}'''),
 dict(id="c16-dynamic-eq", property="C16", needs="two dynamic constants that differ in their descriptor only",
  breaks="they are equal although they are not the same constant, and their hashes differ",
  edits=[("src/dynamic.rs", "            && self.descriptor.eq(&other.descriptor)", "            && self.descriptor.is_method() == other.descriptor.is_method()")],
  main=r'''
fn main() {
    let d = |t: Type| Dynamic::new(BootstrapMethod { handle: handle("m"), arguments: vec![] }, cow("n"), t);
    if d(Type::Int) != d(Type::Int) || d(Type::Int) == d(Type::Long) || d(Type::Int) == d(Type::method(vec![], None)) { die("eq") }
}'''),
 dict(id="c16-f64-eq", property="C16", needs="0.0 and -0.0 as double constants",
  breaks="they are equal but have different hashes",
  edits=[("src/total_floats.rs", "impl PartialEq for TotalF64 {\n    fn eq(&self, other: &Self) -> bool {\n        self.0.total_cmp(&other.0).is_eq()", "impl PartialEq for TotalF64 {\n    fn eq(&self, other: &Self) -> bool {\n        self.0 == other.0 || self.0.to_bits() == other.0.to_bits()")],
  main=r'''
fn main() {
    let v = [0.0f64, -0.0, 1.0, f64::NAN];
    for (i, a) in v.iter().enumerate() { for (j, b) in v.iter().enumerate() {
        if (TotalF64(*a) == TotalF64(*b)) != (i == j) { die(&format!("{a:?} {b:?}")) }
    } }
}'''),
]
