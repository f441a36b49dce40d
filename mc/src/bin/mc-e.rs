include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "E01", bounds: E_BOUNDS, model: CODEC, assumptions: &[READ256, DEPTH], items: e::e01, must_see: &["canonical bytes", "same bytes", "value comes back"] },
        Spec { id: "E02", bounds: "structs and variants of up to 3 fields, all name assignments with duplicates, omissions and extras in the value, all orders, named and unnamed", model: "fields matched by name where both sides have names, else by position", assumptions: &[], items: e::e02, must_see: &["by name", "by position", "name missing", "reordered", "wrong number"] },
        Spec { id: "E03", bounds: "every value of the type family with up to 2 (thorough 3) single-item layers added or removed anywhere, on towers of layers to depth 4", model: READINGS, assumptions: &[DEPTH], items: e::e03, must_see: &["exact after changing layers", "layers as they are", "one of several readings", "only reading"] },
        Spec { id: "E04", bounds: "every type of the family crossed with a pool of values of every kind and all single-node changes of its own values", model: READINGS, assumptions: &[DEPTH], items: e::e04, must_see: &["exact", "only reading", "refused, does not fit", "refused, fits only with layers changed"] },
        Spec { id: "E05", bounds: "all histories of up to 3 (thorough 4) encodings into one buffer, refusals included, from several initial contents", model: "concatenation of the single encodings", assumptions: &["what a refused encoding leaves behind its starting point is unspecified"], items: e::e05, must_see: &["appended", "history", "history with refusals", "refused"] },
        Spec { id: "E06", bounds: "towers of every mix of layers up to depth 3 per period against matching and non-matching types, sizes doubled up to 64", model: "type lookups counted by an instrumented resolver against a polynomial in the size of the value whose degree is the depth of the type", assumptions: &["recursive types consisting of wrappers only are left out"], items: e::e06, must_see: &["matching tower", "tower accepted", "tower refused"] },
        Spec { id: "E07", bounds: "all bit strings up to a length and word boundary lengths, all stores and orders, as bits and as lists, wrapped; all bad lists with one wrong entry", model: "the bit layout of the reference codec", assumptions: &[], items: e::e07, must_see: &["bad list refused", "from a list", "from bits", "wrapper around bits"] },
        Spec { id: "E08", bounds: "every struct and tuple of the family: values, re-ordered, re-layered and changed", model: "encoding against the struct type", assumptions: &[DEPTH], items: e::e08, must_see: &["both refuse", "not a composite", "same bytes"] },
        Spec { id: "E09", bounds: "every value of the type family with every single node replaced by every one of a set of misfits", model: "the path of the replaced node", assumptions: &["a layer with a single part need not be mentioned"], items: e9::e09, must_see: &["the part itself"] },
    ];
    std::process::exit(engine::main(&specs, |_, _| Ok(())));
}
