// No numbers are made of text here.

pub fn parse_kernel_integer(_: &str, _: u32) -> Result<Value> {
    unreachable!()
}
pub fn parse_kernel_float(_: &str) -> Result<Value> {
    unreachable!()
}
