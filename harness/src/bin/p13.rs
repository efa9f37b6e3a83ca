#![allow(deprecated, unused, non_snake_case, text_direction_codepoint_in_literal)]
use harness::*;
mod gen {
    include!(concat!(env!("OUT_DIR"), "/P13.rs"));
}
fn main() {
    quiet_panics();
    watchdog("P13", 60);
    let mut rep = Report::new("P13");
    let plan = plan::plan("P13", seed(), thorough());
    run_sites(&mut rep, &plan, gen::SITES, &run::Options { inputs: tiered(600, 6000), neighbours: tiered(2, 10), ..Default::default() });
    rep.finish();
}
