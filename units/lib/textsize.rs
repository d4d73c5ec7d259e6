// ---- textsize.rs: text-size's TextSize and TextRange (TRUSTED dependency; same representation, a u32 newtype) ----
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TextSize { pub raw: u32 }
pub fn vx_text_size(n: u32) -> (r: TextSize) ensures r.raw == n { TextSize { raw: n } }
}
