// The conversions packing asks the interpreter for.

impl Value {
    pub fn coerce_to_pack_u64(&self, _: &mut Executor, _: &mut Globals) -> Result<u64> {
        let b = self.big().ok_or(MonorubyErr::Type("no implicit conversion into Integer".into()))?;
        Ok((b & BigInt::from(u64::MAX)).to_u64().unwrap())
    }
    pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        let b = self.big().ok_or(MonorubyErr::Type("no implicit conversion into Integer".into()))?;
        b.to_i64().ok_or(MonorubyErr::Range("bignum too big to convert".into()))
    }
    pub fn coerce_to_rstring(&self, _: &mut Executor, _: &mut Globals) -> Result<RString> {
        Err(MonorubyErr::Type("no implicit conversion into String".into()))
    }
}
