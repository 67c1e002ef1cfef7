pub open spec fn pushed(c: Constant) -> Instruction { Instruction::Push(OrDynamic::Static(c)) }
pub open spec fn lbl(p: Pool, at: int, off: int) -> Label { (p.labels)((at + off) as u32) }
/// The operand of newarray.
pub open spec fn primitive_of(n: u8) -> Option<Type> {
    match n { 4 => Some(Type::Boolean), 5 => Some(Type::Char), 6 => Some(Type::Float), 7 => Some(Type::Double), 8 => Some(Type::Byte), 9 => Some(Type::Short), 10 => Some(Type::Int), 11 => Some(Type::Long), _ => None }
}
/// The component that the operand of anewarray names: a class or an array.
pub open spec fn component_of(c: Str) -> Option<Type> { if bracket(c@) { type_of(c@) } else { Some(Type::Ref(c)) } }
/// What remains of the array that multianewarray names below the dimensions that it makes.
pub open spec fn rest_of(c: Str, dim: u8) -> Option<Type> {
    match type_of(c@) {
        Some(Type::ArrayRef(d, t)) => if dim == 0 || d < dim { None } else if d == dim { Some(*t) } else { Some(Type::ArrayRef((d - dim) as u8, t)) },
        _ => None,
    }
}
pub open spec fn cast_of(c: Str) -> Option<ClassType> {
    if bracket(c@) { match type_of(c@) { Some(Type::ArrayRef(d, t)) => Some(ClassType::Array(d, *t)), _ => None } } else { Some(ClassType::Object(c)) }
}
/// The pairs of a lookupswitch, of which the last one of a key counts.
pub open spec fn table_of(p: Pool, at: int, t: Seq<SwitchEntry>) -> Seq<(i32, Label)> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { put(table_of(p, at, t.drop_last()), t.last().0, lbl(p, at, t.last().1 as int)) }
}
