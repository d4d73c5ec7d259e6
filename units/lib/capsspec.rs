// ---- capsspec.rs: what the client offers ----
mod clientcaps {
use vstd::prelude::*;
verus! {
/// the client's capabilities: the encodings offered, and one more standing for the rest
pub struct ClientCapabilities { pub offset_encoding: Option<Vec<String>>, pub rest: u64 }
}
}
//@retype lsp_types::ClientCapabilities => clientcaps::ClientCapabilities
verus! {
/// the client offered UTF-8
pub open spec fn offers_utf8(c: clientcaps::ClientCapabilities) -> bool { c.offset_encoding is Some && exists|i: int| 0 <= i < c.offset_encoding->0@.len() && (#[trigger] c.offset_encoding->0@[i])@ == "utf-8"@ }
}
