include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "J02", bounds: V_BOUNDS, model: "the value itself; an independent rendering of the value as JSON", assumptions: &["JSON holds integers of up to 64 bits", "256-bit numbers come back as their bytes", "the name __bitvec__values__ is reserved"], items: j::j02, must_see: &["composite", "variant", "bits", "primitive"] },
        Spec { id: "J05", bounds: "all data sources that are trees of every kind of serde event to depth 3, read as value, definition, composite, variant and primitive; announced sizes right, missing, too small, too big and absurd; the source failing at every node and after every item", model: "the data of the source, kind by kind", assumptions: &["duplicate name/values keys, further entries next to the bit marker and single layers around names are unspecified", "memory bound: 1 MiB plus 3000 bytes per node of the source"], items: j2::j05, must_see: &["value", "composite", "variant", "primitive", "refused"] },
        Spec { id: "J07", bounds: V_BOUNDS, model: "the exact sequence of serializer calls the value stands for (integer widths left open), cut at the call that fails", assumptions: &["bytes and lists of bytes, structs and maps are alike to a sink"], items: j2::j07, must_see: &["composite", "variant", "bits", "primitive", "sink fails"] },
        Spec { id: "J08", bounds: "all scripts of serializer calls to depth 3: every method of a serializer in every place of every container, announced lengths right, missing, too small, too big and absurd, skipped fields, data failing at every node, containers that go on after an item that cannot be serialized; lengths past every power of two to 2^16", model: "the value the calls stand for", assumptions: &["map keys that are newtypes or unit cases are unspecified", "memory bound: 1 MiB plus 3000 bytes per node of the datum"], items: j3::j08, must_see: &["composite", "variant", "primitive", "datum fails", "refused"] },
        Spec { id: "J09", bounds: J_BOUNDS, model: "allocations, counted, against linear bounds; doubled depths", assumptions: &["work is counted as allocations, not as time"], items: w::j09, must_see: &["converted", "serialized", "tower converted"] },
    ];
    std::process::exit(engine::main(&specs, |_, _| Ok(())));
}
