import os
PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")).read().split("PRELUDE = r'''")[1].split("'''")[0] + r'''
use coffer::code::*;
use coffer::code::Instruction as I;
fn code(c: Vec<Instruction>) -> Code { Code { max_stack: 4, max_locals: 4, code: c, catches: vec![], attrs: vec![] } }
fn same(c: Vec<Instruction>) { let c = code(c); match back(&c) { Ok(g) if g == c => {}, x => die(&format!("{c:?} -> {x:?}")) } }
'''
SEEDS = [
 dict(id="c03-iinc-wide", property="C03", needs="a wide iinc whose constant does not fit a byte",
  breaks="the constant of a wide iinc is read as a byte",
  edits=[("src/code/convert.rs", "I::Wide(Wide::IInc(idx, val)) => IntIncrement(idx, val),", "I::Wide(Wide::IInc(idx, val)) => IntIncrement(idx, val as i8 as i16),")],
  main=r'''
fn main() { for l in [1u16, 300] { for v in [1i16, -128, 127, 128, 1000, -129, i16::MIN] { same(vec![I::IntIncrement(l, v)]); } } }'''),
 dict(id="c03-negative-zero", property="C03", needs="the float constant -0.0",
  breaks="-0.0 is pushed with fconst_0",
  edits=[("src/code/convert.rs", "Instruction::Push(OrDynamic::Static(Constant::F32(f))) if f == 0.0 => {", "Instruction::Push(OrDynamic::Static(Constant::F32(f))) if f.0 == 0.0 => {")],
  main=r'''
fn main() { for f in [0.0f32, 1.0, 2.0, -0.0, 3.5] { same(vec![I::Push(OrDynamic::Static(Constant::F32(coffer::total_floats::TotalF32(f))))]); } }'''),
 dict(id="c03-bipush", property="C03", needs="pushing an integer in 128..=255",
  breaks="the value is pushed with bipush, which is signed",
  edits=[("src/code/convert.rs", "Constant::I32(i @ -128..=127)", "Constant::I32(i @ -128..=255)")],
  main=r'''
fn main() { for i in [-129, -128, -2, 6, 127, 128, 200, 255, 256, 32767, 32768] { same(vec![I::Push(OrDynamic::Static(Constant::I32(i)))]); } }'''),
 dict(id="c04-padding-bound", property="C04", needs="a jump over several switches at a distance where the alignment bytes decide between the short and the wide form",
  breaks="the bound on the size of a switch leaves out its padding, so a jump may be chosen short although it does not reach",
  edits=[("src/code.rs", "} => 15 + offsets.len() * 4, // +3 alignment", "} => 12 + offsets.len() * 4,")],
  main=r'''
fn main() {
    for n in 8170..8195 {
        for pre in 0..16 {
            let post = pre / 4;
            let pre = pre % 4;
            let mut c = vec![I::NoOp; pre];
            c.push(I::Jump(JumpCondition::Always, Label(0)));
            c.push(I::TableSwitch { default: Label(0), low: 0, offsets: vec![Label(0); 1] });
            c.push(I::NoOp);
            c.push(I::TableSwitch { default: Label(0), low: 0, offsets: vec![Label(0); n] });
            for _ in 0..post { c.push(I::NoOp); }
            c.push(I::Label(Label(0)));
            c.push(I::NoOp);
            let mut cp = VecCp::new();
            let mut b = Vec::new();
            if let Err(e) = code(c).write_to(&mut cp, &mut b) { die(&format!("n={n} pre={pre}: {e:?}")) }
            let op = b[8 + pre];
            let off = if op == 167 { i16::from_be_bytes([b[9 + pre], b[10 + pre]]) as i32 } else if op == 200 { i32::from_be_bytes([b[9 + pre], b[10 + pre], b[11 + pre], b[12 + pre]]) } else { die("opcode") };
            let len = u32::from_be_bytes([b[4], b[5], b[6], b[7]]) as i32;
            if pre as i32 + off != len - 1 { die(&format!("n={n} pre={pre}: {off} in code of {len}")); }
        }
    }
}'''),
 dict(id="c04-inverted-size", property="C04", needs="a jump over conditional jumps that had to be widened, at a distance close to 32767",
  breaks="the bound on the size of a conditional jump is that of goto_w, so a jump over widened ones may be chosen short although it does not reach",
  edits=[("src/code.rs", "Instruction::Jump(_, _) => 7, // conditional jumps can't be wide, so there must be a conversion.", "Instruction::Jump(_, _) => 4,")],
  main=r'''
fn main() {
    for k in [1usize, 3, 100] {
        for pad in 0..8 {
            for n in (8187 - 2 * k - 20)..(8187 - k) {
                let mut c = vec![I::Jump(JumpCondition::Always, Label(0))];
                for _ in 0..k { c.push(I::Jump(JumpCondition::IntegerEqualsZero, Label(1))); }
                c.push(I::TableSwitch { default: Label(0), low: 0, offsets: vec![Label(0); n] });
                for _ in 0..pad { c.push(I::NoOp); }
                c.push(I::Label(Label(0)));
                c.push(I::TableSwitch { default: Label(0), low: 0, offsets: vec![Label(0); 8180] });
                c.push(I::Label(Label(1)));
                c.push(I::NoOp);
                let mut cp = VecCp::new();
                let mut b = Vec::new();
                let e = code(c).write_to(&mut cp, &mut b);
                if b.len() > 8 || format!("{e:?}").contains("offset") { if let Err(e) = e { die(&format!("k={k} n={n} {e:?}")) } }
            }
        }
    }
}'''),
 dict(id="c04-unsorted", property="C04", needs="a lookup switch whose keys were inserted in descending order, with a negative key",
  breaks="the pairs of a lookupswitch are sorted as unsigned numbers",
  edits=[("src/code.rs", "tbl.sort_keys(); // lookup switch must be sorted", "tbl.sort_by(|a, _, b, _| (*a as u32).cmp(&(*b as u32))); // lookup switch must be sorted")],
  main=r'''
fn main() {
    for keys in [vec![3, 1, 2], vec![5, -1], vec![0, i32::MIN, i32::MAX]] {
        let mut t = indexmap_from(&keys);
        t.insert(77, Label(0));
        let c = vec![I::Label(Label(0)), I::LookupSwitch { default: Label(0), table: t }];
        let b = body(&code(c));
        let n = i32::from_be_bytes([b[16], b[17], b[18], b[19]]) as usize;
        let ks: Vec<i32> = (0..n).map(|i| i32::from_be_bytes([b[20 + 8 * i], b[21 + 8 * i], b[22 + 8 * i], b[23 + 8 * i]])).collect();
        if ks.windows(2).any(|w| w[0] >= w[1]) { die(&format!("{ks:?}")); }
    }
}
fn indexmap_from(ks: &[i32]) -> indexmap::IndexMap<i32, Label> { ks.iter().map(|k| (*k, Label(0))).collect() }'''),
]
