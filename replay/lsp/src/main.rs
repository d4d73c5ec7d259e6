#[path = "../../common/common.rs"]
mod common;
mod lines;
mod server;
mod state;
mod store;
fn main() {
    common::run_main(&[("P06", server::p06), ("P07", lines::p07), ("P08", lines::p08), ("P09", lines::p09), ("P10", lines::p10), ("P11", store::p11), ("P12", store::p12), ("P13", store::p13),
        ("P14", store::p14), ("P15", state::p15), ("P16", state::p16), ("P17", state::p17), ("P19", server::p19), ("P20", server::p20)], &[]);
}
