// ---- protospec.rs: what protocol positions stand for ----
use std::sync::Arc;
//@include lineendings.rs
//@include textpos.rs
//@include posspec.rs
//@include protobody.rs
