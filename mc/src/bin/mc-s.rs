include!("../common.rs");

fn main() {
    let specs: Vec<Spec> = vec![
        Spec { id: "S01", bounds: V_BOUNDS, model: "the value itself (a non-negative signed number comes back unsigned)", assumptions: &[DEPTH, "256-bit integers have no text form, by design"], items: s::s01, must_see: &["bits", "composite", "empty composite", "primitive", "variant"] },
        Spec { id: "S02", bounds: V_BOUNDS, model: "an independent printer with every style option", assumptions: &[DEPTH], items: s::s02, must_see: &["all styles", "odd indentation"] },
        Spec { id: "S03", bounds: T_BOUNDS, model: "safety conditions on result, remainder and error position", assumptions: &[DEPTH], items: s::s03, must_see: &["parsed, all consumed", "parsed, remainder", "refused"] },
        Spec { id: "S04", bounds: T_BOUNDS, model: "an independent recursive-descent parser of the documented grammar", assumptions: &[DEPTH], items: s::s04, must_see: &["bits", "bool", "char", "composite", "negative", "number", "refused", "string", "variant"] },
        Spec { id: "S05", bounds: "all lists of up to two (thorough: three) custom parsers from a set of well and badly behaved ones, crossed with all texts over tokens up to a length", model: "the reference parser with the custom parsers tried in order before its own alternatives", assumptions: &[DEPTH], items: s::s05, must_see: &["custom error", "parsed", "syntax error"] },
        Spec { id: "S06", bounds: "all lists of custom formatters from a set of six, crossed with printing styles and value trees", model: "the reference printer with the formatters asked in order at each node", assumptions: &[DEPTH], items: s::s06, must_see: &["context only", "nothing replaced", "replaced", "replaced, with context"] },
        Spec { id: "S07", bounds: "all hex texts over a character set up to a length; all byte lists up to a length over boundary bytes, and near misses", model: "hex digits pairwise", assumptions: &[], items: s::s07, must_see: &["formatter and back", "formatter declines", "left alone", "parsed", "refused"] },
        Spec { id: "S08", bounds: "addresses of all prefix widths and account lengths, every single-character edit of each, every place in a larger text, all short words", model: "an independent base58 and ss58 reference", assumptions: &["blake2 is taken from the same library"], items: s::s08, must_see: &["address taken", "declined", "edited declined", "in a larger text", "numbers declined", "short words"] },
        Spec { id: "S09", bounds: "every value of S02's family (long ones: around ends and middle) in twelve styles, through every entry point, with a writer that fails at every byte offset (taking a part of the text it fails on, or nothing); a custom or context formatter failing at every node", model: "the beginning of the reference printer's text", assumptions: &["256-bit integers have no text form, by design"], items: s::s09, must_see: &["writer fails", "formatter fails", "writer does not fail"] },
        Spec { id: "S10", bounds: T_BOUNDS, model: "an independent recogniser of the texts which can be continued to a value", assumptions: &[DEPTH, "an error without an end says only where it starts"], items: s::s10, must_see: &["incomplete", "no end given", "parsed", "wrong in a range"] },
        Spec { id: "S11", bounds: T_BOUNDS, model: "calls of a custom parser, writes and allocations, counted, against linear bounds; doubled depths", assumptions: &["work is counted as places where a value is looked for, pieces written and allocations, not as time"], items: w::s11, must_see: &["parsed", "printed", "tower parsed", "tower printed"] },
    ];
    std::process::exit(engine::main(&specs, |_, _| Ok(())));
}
