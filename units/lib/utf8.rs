// ---- utf8.rs: texts from bytes and back (TRUSTED: std) ----
verus! {
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, ()>) ensures r is Ok <==> valid_utf8(v@), r is Ok ==> r->Ok_0@ == decode_utf8(v@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_vec(v: &[u8]) -> (r: Vec<u8>) ensures r@ == v@ { v.to_vec() }
#[verifier::external_body]
pub fn vx_text_bytes(s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@) { s.into_bytes() }
}
