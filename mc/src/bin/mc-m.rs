include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "A04", bounds: "all invocations of the grammar: every kind of leaf expression in every place, all containers up to width 3 over leaves and containers, chains of containers to depth 4 (thorough 6), with and without trailing commas, keys and names of every spelling", model: "the value the grammar assigns to the text", assumptions: &["lists short enough for the user's macro recursion limit"], items: m::a04, must_see: &["leaf", "unnamed composite", "named composite", "unnamed variant", "named variant"] },
        Spec { id: "F01", bounds: "all six distinct sets of features with overflow checks; the full set also optimized without them, and with std dependencies (thorough: all 24 combinations); in each, printing, access, SCALE, parsing, ss58 and serde over 2900 values, 35 types, all inputs of up to 3 bytes over 9 (thorough 16), all texts of up to 3 (4) of 22 tokens; a program without std in each feature set", model: "the configuration with every feature", assumptions: &["error texts of the codec are longer with std"], items: f::f01, must_see: &["builds without std", "builds and runs", "same outcome", "refused in both", "same cases"] },
    ];
    std::process::exit(engine::main(&specs, |id, tier| match id {
        "A04" => m::prepare(tier),
        _ => f::prepare(tier),
    }));
}
