// Arrays as far as numbers need them. Included beside `world_num.rs`.

#[derive(Clone, Debug)]
pub struct ArrayInner(Vec<Value>);
impl ArrayInner {
    pub fn from_vec(v: Vec<Value>) -> ArrayInner {
        ArrayInner(v)
    }
}
impl std::ops::Deref for ArrayInner {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        &self.0
    }
}
#[derive(Clone, Copy)]
pub struct Array(Value);
impl Array {
    pub fn new_unchecked(v: Value) -> Array {
        Array(v)
    }
}
impl std::ops::Deref for Array {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        match self.0.cell() {
            Some(Cell::Array(a)) => &a.0,
            _ => unreachable!(),
        }
    }
}
by_elements! {
    ArrayInner, |s| s.0.iter().copied();
}
