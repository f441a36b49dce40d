include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "D05", bounds: "the inputs of D01 and the values of E04 through a second resolver with type ids of another kind (not copyable) and misleading paths; for every type to depth 2 (thorough 3), each type it is made of missing, the resolver failing, saying not found, or saying unhandled", model: "the same types in a scale-info registry (itself compared with the reference codec in D01-E08); with a type missing, the reference codec and readings", assumptions: &[READ256, DEPTH], items: r::d05, must_see: &["decoded alike", "refused alike", "encoded alike", "not encodable alike", "missing type refused", "missing type not needed"] },
    ];
    std::process::exit(engine::main(&specs, |_, _| Ok(())));
}
