include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "X01", bounds: D_BOUNDS, model: CODEC, assumptions: &["types with 256 bit integers are left out: they cannot be printed", DEPTH], items: x::x01, must_see: &["composite", "variant", "bits", "primitive"] },
    ];
    std::process::exit(engine::main(&specs, |_, _| Ok(())));
}
