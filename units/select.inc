@text
// ---- tokio::select!: any branch; its future is run to its end, and one whose value its pattern refuses is not taken.
#[verifier::external_body]
pub fn vx_choose() -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn vx_never<T>() -> (r: T) ensures false { unimplemented!() }
