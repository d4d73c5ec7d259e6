// ---- configspec.rs: the configuration, as the encoding depends on it ----
//@file cf crates/move_language_server/src/config.rs noinline
//@include capsspec.rs
verus! {
//@type cf::Config derive= drop=discovered_projects,detached_files,root_path
pub open spec fn encoding_of(c: Config) -> OffsetEncoding { if offers_utf8(c.caps) { OffsetEncoding::Utf8 } else { OffsetEncoding::Utf16 } }
}
