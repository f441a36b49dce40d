include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "J01", bounds: J_BOUNDS, model: "the datum itself", assumptions: &["serde's default representation: serde buffers untagged, flattened and internally tagged data in a form without 128-bit integers"], items: j::j01, must_see: &["named", "unnamed", "variant", "primitive", "derived type"] },
        Spec { id: "J03", bounds: "all twelve integer types against all boundary values (each power of two, and its neighbours, of either sign), alone and in every container; byte buffers; byte lists with one bad entry", model: "integer ranges", assumptions: &[], items: j::j03, must_see: &["unsigned fits", "signed fits", "refused, out of range", "refused, not a number", "bytes", "refused, not bytes", "built"] },
        Spec { id: "J04", bounds: J_BOUNDS, model: "the structure each shape stands for and its SCALE layout, written by the rules of the format", assumptions: &["maps have no SCALE layout with names"], items: j::j04, must_see: &["structure", "structure and layout", "derived type", "map key taken", "map key refused"] },
        Spec { id: "J06", bounds: "all Rust data types of J01 (and types with dynamic values left inside), read from all single-node changes and restylings of their own values and a pool of foreign values", model: "a relation between type, datum and value saying what a faithful reading is, and the readings that must succeed", assumptions: &["derived code, as interpreted"], items: j2::j06, must_see: &["read, as it must be", "read, as it may be", "refused"] },
    ];
    std::process::exit(engine::main(&specs, |_, _| Ok(())));
}
