include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "D01", bounds: D_BOUNDS, model: CODEC, assumptions: &[READ256, DEPTH], items: d::d01, must_see: &["trailing data", "two in a row", "whole input"] },
        Spec { id: "D02", bounds: D_BOUNDS, model: CODEC, assumptions: &[READ256, DEPTH, "memory is counted by a global allocator wrapper; the bound is 1 MiB plus 3000 bytes per input byte and decoded node"], items: d::d02, must_see: &["accepted within memory bound", "invalid input refused", "truncated input refused"] },
        Spec { id: "D03", bounds: D_BOUNDS, model: CODEC, assumptions: &[READ256, DEPTH], items: d::d03, must_see: &["label agrees", "nested labels agree"] },
        Spec { id: "D04", bounds: D_BOUNDS, model: "decoding the whole type, itself compared with the reference codec for acceptance", assumptions: &[READ256, DEPTH], items: d::d04, must_see: &["all ways refuse", "field list ways agree", "typed container agrees", "whole type ways agree"] },
        Spec { id: "D06", bounds: D_BOUNDS, model: "type lookups and allocations, counted, against a linear bound in the bytes and nodes", assumptions: &[READ256, "work is counted as type lookups and allocations"], items: w::d06, must_see: &["decoded", "refused", "tower"] },
        Spec { id: "T01", bounds: D_BOUNDS, model: "plain decoding, and the reference codec", assumptions: &[READ256, DEPTH], items: d::t01, must_see: &["both accept", "both refuse"] },
        Spec { id: "T02", bounds: D_BOUNDS, model: "the reference codec extended with the path to the failure and the value decoded so far; the reference printer", assumptions: &[READ256, DEPTH], items: d::t02, must_see: &["failure at the top", "failure reported", "nested failure reported"] },
    ];
    std::process::exit(engine::main(&specs, |_, _| Ok(())));
}
