#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P01.rs"));
}
fn main() {
    quiet_panics();
    watchdog("P01", 60);
    let mut rep = Report::new("P01");
    let plan = plan::plan("P01", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &Options::default());
    long::long_inputs(&mut rep);
    rep.finish();
}
