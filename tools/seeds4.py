import os
PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")).read()
_g = {"__file__": os.path.abspath(__file__)}
exec(PRELUDE.split("SEEDS = [")[0], _g)
PRELUDE = _g["PRELUDE"]
SEEDS = [
 dict(id="c15-handle-clinit", property="C15", needs="a method handle to a static initializer called as invokespecial",
  breaks="the check of method handles does not look at the name for one kind",
  edits=[("src/loadable.rs", "            | MethodHandleKind::InvokeSpecial\n            | MethodHandleKind::InvokeInterface\n                if", "            | MethodHandleKind::InvokeInterface\n                if")],
  main=r'''
fn main() {
    for kind in [MethodHandleKind::InvokeStatic, MethodHandleKind::InvokeVirtual, MethodHandleKind::InvokeSpecial, MethodHandleKind::InvokeInterface] {
        for n in ["<init>", "<clinit>"] {
            let mut h = handle(n);
            h.kind = kind;
            if h.check().is_ok() { die(&format!("{:?}", h)) }
        }
        let mut h = handle("f");
        h.kind = kind;
        h.check().unwrap();
    }
}'''),
 dict(id="c15-handle-field", property="C15", needs="a handle that sets a static field but has a method descriptor",
  breaks="the check of method handles accepts a method descriptor for one of the field kinds",
  edits=[("src/loadable.rs", "MethodHandleKind::GetStatic, MethodHandleKind::PutField, MethodHandleKind::PutStatic }", "MethodHandleKind::GetStatic, MethodHandleKind::PutField }")],
  main=r'''
fn main() {
    for kind in [MethodHandleKind::GetField, MethodHandleKind::GetStatic, MethodHandleKind::PutField, MethodHandleKind::PutStatic] {
        let mut h = handle("f");
        h.kind = kind;
        if h.check().is_ok() { die(&format!("{:?}", h)) }
        h.member.descriptor = Type::Int;
        h.check().unwrap();
    }
}'''),
 dict(id="c15-icmple", property="C15", needs="equal operands of an if_icmple built with the shorthand",
  breaks="Instruction::if_icmple builds if_icmplt",
  edits=[("src/code/structure.rs", "Self::Jump(JumpCondition::IntegerLessThanOrEquals, l)", "Self::Jump(JumpCondition::IntegerLessThan, l)")],
  main=r'''
fn main() {
    let l = Label(0);
    if Instruction::if_icmple(l) != Instruction::Jump(JumpCondition::IntegerLessThanOrEquals, l) { die("if_icmple") }
}'''),
]
