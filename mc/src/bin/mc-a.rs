include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "A01", bounds: "values of every kind, width up to 3 (some 64) and depth up to 4 with repeated, empty and numeric names; all chains of lookups up to 3 (thorough 4) steps over 7 (10) locations, in every spelling and from every kind of starting point", model: "walking the children", assumptions: &[], items: a::a01, must_see: &["found by name", "found by position", "nothing there", "chain leads somewhere", "chain leads nowhere"] },
        Spec { id: "A02", bounds: V_BOUNDS, model: "the tree rebuilt with mapped labels; the multiset of calls", assumptions: &[], items: a::a02, must_see: &["composite", "variant", "leaf", "empty container"] },
        Spec { id: "A03", bounds: "all values of A02 with every constructor, conversion and accessor that applies; all pairs of a set of values compared; every integer type at its powers of two and ends", model: "the value's parts, and equality written out", assumptions: &[], items: a::a03, must_see: &["bool", "char", "string", "unsigned", "signed", "bytes", "no view"] },
    ];
    std::process::exit(engine::main(&specs, |_, _| Ok(())));
}
