// ---- lsptypes.rs: the lsp_types structures used, with the fields the code reads (TRUSTED dependency; derived orders are lexicographic). ----
mod lsp_types {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
//@include lsptypes_body.rs
}
