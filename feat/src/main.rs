//! For F01: what every part of the crate does over a small enumerated space, written to a file
//! (one line per case: group, input, outcome). The program is built in every configuration; the
//! lines of two configurations which have a part in common must be the same.
use scale_info::{PortableRegistry, TypeInfo};
use scale_value::{value, At, BitSequence, Composite, Primitive, Value, ValueDef};
use std::fmt::{Debug, Write as _};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

type V = Value<()>;

struct Out {
    file: std::io::BufWriter<std::fs::File>,
    deep: bool,
}
impl Out {
    fn case(&mut self, group: &str, input: impl Into<String>, f: impl FnOnce() -> String) {
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panics".into());
        let r = short(r);
        let line = format!("{group}\t{}\t{r}", input.into()).replace('\\', "\\\\").replace('\n', "\\n");
        writeln!(self.file, "{line}").expect("output");
    }
}

/// A long outcome by its beginning and its hash.
fn short(s: String) -> String {
    if s.len() <= 160 {
        return s;
    }
    let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    format!("{}.. {} bytes, hash {h:016x}", s.chars().take(100).collect::<String>(), s.len())
}

fn p(x: Primitive) -> V {
    Value::primitive(x)
}
fn bits(s: &str) -> V {
    let mut b = BitSequence::new();
    s.chars().for_each(|c| b.push(c == '1'));
    Value::bit_sequence(b)
}

fn leaves() -> Vec<V> {
    let mut out = vec![Value::bool(true), Value::bool(false)];
    for n in [0u128, 1, 200, 255, 256, 65535, 65536, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, i128::MAX as u128, 1 << 127, u128::MAX] {
        out.push(Value::u128(n));
    }
    for n in [0i128, 5, -1, -128, -129, i64::MIN as i128, i64::MAX as i128 + 1, i128::MAX, -i128::MAX, i128::MIN] {
        out.push(Value::i128(n));
    }
    out.extend("a'\"\\\n\0é🦀".chars().map(Value::char));
    for s in ["", "a", "a b", "\"", "\\n\n", "é🦀", "B", "0x00ff"] {
        out.push(Value::string(s));
    }
    for s in ["", "1", "0101", "11111111", "000000001", "11111111000000001"] {
        out.push(bits(s));
    }
    out.push(p(Primitive::U256([7; 32])));
    out.push(p(Primitive::I256([255; 32])));
    out
}

fn around(kids: &[V], out: &mut Vec<V>) {
    let names = ["a", "b c", "true", ""];
    for shift in 0..2 {
        let named = || -> Vec<(String, V)> { kids.iter().enumerate().map(|(k, v)| (names[(k + shift * 2) % 4].to_string(), v.clone())).collect() };
        if shift == 0 {
            out.push(Value::without_context(ValueDef::Composite(Composite::Unnamed(kids.to_vec()))));
            out.push(Value::variant("A", Composite::Unnamed(kids.to_vec())));
            out.push(Value::variant("B x", Composite::Unnamed(kids.to_vec())));
        }
        out.push(Value::without_context(ValueDef::Composite(Composite::Named(named()))));
        out.push(Value::variant("B", Composite::Named(named())));
    }
}

fn values(deep: bool) -> Vec<V> {
    let ls = leaves();
    let few: Vec<V> = vec![Value::u128(7), Value::i128(-2), Value::string("x"), Value::bool(true), Value::char('c'), bits("10")];
    let mut out = ls.clone();
    around(&[], &mut out);
    for l in &ls {
        around(&[l.clone()], &mut out);
    }
    for a in &few {
        for b in &few {
            around(&[a.clone(), b.clone()], &mut out);
        }
        around(&[a.clone(), few[0].clone(), a.clone()], &mut out);
    }
    let mut inner = vec![];
    around(&[], &mut inner);
    for l in [&few[0], &few[2]] {
        around(&[l.clone()], &mut inner);
        around(&[l.clone(), few[1].clone()], &mut inner);
    }
    for v in inner.clone() {
        around(&[v.clone()], &mut out);
        around(&[v.clone(), few[0].clone()], &mut out);
        if deep {
            for w in &inner {
                around(&[v.clone(), w.clone()], &mut out);
            }
        }
        let mut up = vec![];
        around(&[v], &mut up);
        for u in up {
            around(&[u], &mut out);
        }
    }
    for k in 1..128 {
        let p = 1u128 << k;
        out.extend([Value::u128(p - 1), Value::u128(p), Value::i128(p as i128), Value::i128((p as i128).wrapping_neg()), Value::i128(-1 - (p - 1) as i128)]);
    }
    for n in [15usize, 63, 64, 65, 300] {
        out.push(Value::from_bytes(vec![1u8; n]));
        out.push(bits(&"10".repeat(n)));
    }
    out
}

/// Every character (of each script some, and those where a script begins or ends) in every role.
fn spelled(deep: bool) -> Vec<V> {
    let kind = |x: u32| char::from_u32(x).map(|c| (c.is_alphabetic(), c.is_alphanumeric(), c.is_whitespace(), c.is_control(), c.len_utf8()));
    let mut out = vec![];
    for c in (0..0x110000).filter_map(char::from_u32) {
        let x = c as u32;
        if x > 0x180 && !deep && kind(x) == kind(x + 1) && kind(x) == kind(x - 1) {
            continue;
        }
        let n = format!("a{c}");
        let inner = Value::without_context(ValueDef::Composite(Composite::Named(vec![(c.to_string(), Value::char(c)), (n.clone(), Value::string(c))])));
        out.push(Value::variant(c, Composite::Unnamed(vec![inner, Value::variant(n, Composite::Unnamed(vec![]))])));
    }
    out
}

/// Values of every size: deep towers of every kind of layer, long lists, names, texts and bits.
fn sized(deep: bool) -> Vec<(String, V)> {
    let mut ns: Vec<usize> = (2..if deep { 70 } else { 36 }).collect();
    ns.extend([63, 64, 65, 100, 127, 128, 129, 150]);
    let mut long = ns.clone();
    long.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097]);
    let mut out = vec![];
    for n in ns {
        for kind in 0..5 {
            let mut v = Value::u128(1);
            for k in 0..n {
                v = match if kind == 4 { k % 4 } else { kind } {
                    0 => Value::unnamed_composite([v]),
                    1 => Value::named_composite([("a", v)]),
                    2 => Value::unnamed_variant("V", [v, Value::bool(true)]),
                    _ => Value::named_variant("some name", [("b c", v)]),
                };
            }
            out.push((format!("tower {kind} of {n}"), v));
        }
    }
    for n in long {
        out.push((format!("list of {n}"), Value::unnamed_composite((0..n).map(|k| Value::u128(k as u128)))));
        out.push((format!("record of {n}"), Value::named_composite((0..n).map(|k| (format!("k{k}"), Value::i128(-(k as i128)))))));
        out.push((format!("bytes {n}"), Value::from_bytes(vec![7; n])));
        out.push((format!("text of {n}"), Value::string("é\n".repeat(n))));
        out.push((format!("name of {n}"), Value::named_variant("a".repeat(n), [("b ".repeat(n), Value::char('c'))])));
        out.push((format!("bits {n}"), bits(&"110".repeat(n)[..n])));
        let mut odd = vec![Value::bool(true); n];
        odd[n - 1] = Value::string("odd");
        out.push((format!("odd one last of {n}"), Value::unnamed_composite(odd)));
    }
    out
}

fn at_size(out: &mut Out) {
    let mut reg = scale_info::Registry::new();
    let mut ids = vec![];
    macro_rules! add {
        ($($t:ty),* $(,)?) => { $( ids.push((stringify!($t), reg.register_type(&scale_info::MetaType::new::<$t>()).id)); )* };
    }
    add!(Vec<u8>, Vec<u32>, Vec<i64>, Vec<bool>, String, scale_bits::Bits, Vec<codec::Compact<u32>>, u8);
    let reg: PortableRegistry = reg.into();
    for (key, v) in sized(out.deep) {
        out.case("debug", &key, || format!("{v:?}"));
        out.case("display", &key, || format!("{v} {v:#}"));
        #[cfg(feature = "from-string")]
        for (which, text) in [format!("{v}"), format!("{v:#}"), format!("{v}").replace(' ', ""), format!("{v}x"), { let mut t = format!("{v}"); t.pop(); t }].into_iter().enumerate() {
            out.case("parse", format!("{key} text {which}"), || format!("{:?}", scale_value::stringify::from_str(&text)));
        }
        #[cfg(feature = "serde")]
        {
            use scale_value::serde::{from_value, to_value};
            out.case("to_value", &key, || show(to_value(&v)));
            out.case("from_value", &key, || show(from_value::<_, Value<()>>(v.clone())));
            out.case("from_value", format!("numbers {key}"), || show(from_value::<_, Vec<u32>>(v.clone())));
            out.case("from_value", format!("bools {key}"), || show(from_value::<_, Vec<bool>>(v.clone())));
        }
        for (name, id) in &ids {
            let mut bytes = vec![];
            out.case("encode", format!("{name} <- {key}"), || {
                let r = scale_value::scale::encode_as_type(&v, *id, &reg, &mut bytes);
                show(r) + " " + &hex(&bytes)
            });
            for cut in [0, 1] {
                let bytes = &bytes[..bytes.len() - cut.min(bytes.len())];
                out.case("decode", format!("{name} {key} without {cut}"), || {
                    let mut i = bytes;
                    let r = scale_value::scale::decode_as_type(&mut i, *id, &reg).map(|v| v.map_context(|_| ()));
                    show(r) + &format!(" left {}", i.len())
                });
                out.case("trace", format!("{name} {key} without {cut}"), || {
                    let mut i = bytes;
                    show(scale_value::scale::tracing::decode_as_type(&mut i, *id, &reg))
                });
            }
        }
        out.case("access", &key, || format!("{:?} {:?} {:?}", v.at(0), v.at("a").at("a"), v.at("k255")));
    }
}

#[derive(TypeInfo)]
#[allow(dead_code)]
struct Pair {
    a: u8,
    b: (u16, bool),
}
#[derive(TypeInfo)]
#[allow(dead_code)]
struct One(u32);
#[derive(TypeInfo)]
#[allow(dead_code)]
enum Pick {
    A,
    B { a: u8 },
    #[codec(index = 9)]
    C(u8, Option<u8>),
}

fn types() -> (PortableRegistry, Vec<(String, u32)>) {
    let mut reg = scale_info::Registry::new();
    let mut out = vec![];
    macro_rules! add {
        ($($t:ty),* $(,)?) => { $( out.push((stringify!($t).to_string(), reg.register_type(&scale_info::MetaType::new::<$t>()).id)); )* };
    }
    add!(
        bool, char, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, String, Vec<u8>, [u8; 2], [u16; 1], (), (u8,), (u8, u8), (u8, (bool, i8)), Vec<(u8, bool)>, Pair, One, Pick,
        Option<u8>, Option<Option<bool>>, Result<u8, String>, Vec<Pick>, codec::Compact<u8>, codec::Compact<u32>, codec::Compact<u128>, codec::Compact<()>,
        scale_bits::Bits, Vec<One>, [Pair; 1], core::time::Duration,
    );
    (reg.into(), out)
}

fn hex(b: &[u8]) -> String {
    b.iter().fold(String::new(), |mut s, b| {
        let _ = write!(s, "{b:02x}");
        s
    })
}

fn show<A: Debug, E: std::fmt::Display>(r: Result<A, E>) -> String {
    match r {
        Ok(a) => format!("{a:?}"),
        Err(e) => format!("ERR {e}"),
    }
}

#[derive(Clone, Default)]
struct Text(std::rc::Rc<std::cell::RefCell<String>>);
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}

fn printing(out: &mut Out, vs: &[V]) {
    for (k, v) in spelled(out.deep).iter().enumerate() {
        let key = format!("name {k}");
        out.case("debug", &key, || format!("{v:?}"));
        out.case("display", &key, || format!("{v} {v:#}"));
        #[cfg(feature = "from-string")]
        out.case("parse", &key, || format!("{:?}", scale_value::stringify::from_str(&v.to_string())));
        #[cfg(feature = "serde")]
        out.case("to_value", &key, || show(scale_value::serde::to_value(v)));
        #[cfg(feature = "serde")]
        out.case("from_value", &key, || show(scale_value::serde::from_value::<_, Value<()>>(v.clone())));
    }
    for (k, v) in vs.iter().enumerate() {
        let key = format!("value {k}");
        out.case("debug", &key, || format!("{v:?} {v:#?}"));
        out.case("display", &key, || format!("{v}"));
        out.case("display", format!("# {key}"), || format!("{v:#}"));
        out.case("display", format!("to_string {key}"), || scale_value::stringify::to_string(v));
        out.case("styles", &key, || {
            let mut all = String::new();
            for k in 0..4 {
                let mut b = scale_value::stringify::to_writer_custom::<(), Text>();
                b = match k {
                    0 => b.compact(),
                    1 => b.pretty().leading_indent("> ").indent_by("\t"),
                    2 => b.pretty().add_custom_formatter(|v, w: &mut Text| scale_value::stringify::custom_formatters::format_hex(v, &mut *w)),
                    _ => b.format_context(|_, w: &mut Text| w.write_str("ctx")),
                };
                let text = Text::default();
                let r = b.write(v, text.clone());
                let _ = write!(all, "{r:?} {} | ", text.0.borrow());
            }
            all
        });
    }
}

fn access(out: &mut Out, vs: &[V]) {
    for (k, v) in vs.iter().enumerate() {
        let key = format!("value {k}");
        out.case("access", &key, || {
            format!(
                "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                v.at("a"), v.at(0), v.at(1), v.at("b c").at(0), v.at(0).at("a"), v.as_bool(), v.as_char(), v.as_u128(), v.as_i128(), v.as_str(),
                v.clone().map_context(|_| 1u8).remove_context() == *v
            )
        });
    }
    let (x, s) = (3u8, String::from("s"));
    out.case("macro", "", || {
        format!(
            "{:?}",
            [value!(x), value!(s), value!((x, "a", (true,))), value!({ a: x, b: { c: (1, 2) } }), value!(A()), value!(A {}), value!(A(1, x)), value!(A { b: 'c' }), value!(()), value!({}), value!([1u8, 2][0])]
        )
    });
    let ns: Vec<V> = vec![1u8.into(), (-1i8).into(), 1u16.into(), (-5i16).into(), 1u32.into(), i32::MIN.into(), u64::MAX.into(), i64::MIN.into(), 1usize.into(), (-1isize).into(), u128::MAX.into(), i128::MIN.into(), true.into(), 'c'.into(), "s".into(), String::from("t").into()];
    out.case("from", "", || format!("{ns:?}"));
}

fn scale(out: &mut Out, vs: &[V]) {
    let (reg, ts) = types();
    for (name, id) in &ts {
        for (k, v) in vs.iter().enumerate() {
            out.case("encode", format!("{name} <- value {k}"), || {
                let mut b = vec![0xee];
                let r = scale_value::scale::encode_as_type(v, *id, &reg, &mut b);
                match r {
                    Ok(()) => hex(&b),
                    Err(e) => format!("ERR {e}"),
                }
            });
        }
        // All inputs over an alphabet, up to a length.
        let alphabet: &[u8] = if out.deep { &[0, 1, 2, 3, 4, 5, 8, 9, 12, 0x40, 0x61, 0x7f, 0x80, 0xc3, 0xfe, 0xff] } else { &[0, 1, 2, 4, 5, 9, 0x61, 0x80, 0xff] };
        let mut level: Vec<Vec<u8>> = vec![vec![]];
        for len in 0..=3 {
            for b in &level {
                out.case("decode", format!("{name} {}", hex(b)), || {
                    let mut i = &b[..];
                    let r = scale_value::scale::decode_as_type(&mut i, *id, &reg).map(|v| v.map_context(|_| ()));
                    show(r) + &format!(" left {}", i.len())
                });
                out.case("trace", format!("{name} {}", hex(b)), || {
                    let mut i = &b[..];
                    show(scale_value::scale::tracing::decode_as_type(&mut i, *id, &reg))
                });
            }
            if len < 3 {
                level = level.iter().flat_map(|b| alphabet.iter().map(|x| [&b[..], &[*x]].concat())).collect();
            }
        }
        let mut long = vec![4u8; 70];
        for first in [0u8, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x03, 0x13, 0x33] {
            long[0] = first;
            for n in [4usize, 8, 17, 33, 70] {
                out.case("decode", format!("{name} {}", hex(&long[..n])), || {
                    let mut i = &long[..n];
                    let r = scale_value::scale::decode_as_type(&mut i, *id, &reg).map(|v| v.map_context(|_| ()));
                    show(r) + &format!(" left {}", i.len())
                });
            }
        }
    }
}

#[cfg(feature = "from-string")]
fn texts(deep: bool) -> Vec<String> {
    let toks = ["(", ")", "{", "}", "<", ">", ",", ":", "a", "v", "1", "0", "-", "_", "'", "\"", "\\", " ", "true", "é", "0x", "\n"];
    let mut out = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..if deep { 4 } else { 3 } {
        level = level.iter().flat_map(|s| toks.iter().map(move |t| format!("{s}{t}"))).collect();
        out.extend(level.clone());
    }
    for n in ["340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "1_000", "+1"] {
        out.push(n.into());
    }
    for s in ["'\\u{1F980}'", "\"\\u{0}\"", "\"\\q\"", "{ a: (1, <01>), \"b c\": v\"X y\" { c: 'd' } }", "A(1,(2,),{})", "0x0011ff", "(0x00, 0xz)", "0x12 "] {
        out.push(s.into());
    }
    out
}

#[cfg(feature = "from-string")]
fn parsing(out: &mut Out) {
    use scale_value::stringify::{custom_parsers::parse_hex, from_str, from_str_custom};
    for t in texts(out.deep) {
        out.case("parse", &t, || {
            let (r, rest) = from_str(&t);
            match r {
                Ok(v) => format!("{v:?} rest {rest:?}"),
                Err(e) => format!("ERR {e} {}..{:?} {:?} rest {rest:?}", e.start_loc, e.end_loc, e.err),
            }
        });
        if t.contains("0x") {
            out.case("hex", &t, || {
                let (r, rest) = from_str_custom().add_custom_parser(parse_hex).parse(&t);
                format!("{} rest {rest:?}", show(r))
            });
        }
    }
}

#[cfg(feature = "parser-ss58")]
fn ss58(out: &mut Out) {
    use scale_value::stringify::{custom_parsers::parse_ss58, from_str_custom};
    let a = "5FHneW46xGXgs5mUiveU4sbTyGBzmstUspZC92UhjJM694ty";
    let mut ts: Vec<String> = vec![a.into(), format!("({a}, {a})"), format!("{{ a: {a} }}"), format!("{a}x"), "25GUyv".into()];
    for k in 0..a.len() {
        for c in ["1", "z", "", "0", "5"] {
            ts.push(format!("{}{c}{}", &a[..k], &a[k + 1..]));
        }
    }
    ts.sort();
    ts.dedup();
    for t in ts {
        out.case("ss58", &t, || {
            let (r, rest) = from_str_custom().add_custom_parser(parse_ss58).parse(&t);
            format!("{} rest {rest:?}", show(r))
        });
    }
}

#[cfg(feature = "serde")]
mod with_serde {
    use super::*;
    use scale_value::Variant;
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;

    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    struct Pair {
        a: u8,
        #[serde(rename = "b c")]
        b: Option<Box<Pick>>,
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    struct One(u32);
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    struct Unit;
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    enum Pick {
        A,
        B { a: u8 },
        C(u8, Option<u8>),
        D(One),
    }

    pub fn run(out: &mut Out, vs: &[V]) {
        use scale_value::serde::{from_value, to_value};
        macro_rules! read {
            ($($t:ty),* $(,)?) => {$(
                for (k, v) in vs.iter().enumerate() {
                    out.case("from_value", format!("{} <- value {k}", stringify!($t)), || show(from_value::<_, $t>(v.clone())));
                }
            )*};
        }
        read!(
            bool, char, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f64, String, Vec<u8>, [u8; 2], (), (u8,), (u8, i8), Pair, One, Unit, Pick, Option<u8>, Option<Pick>, Vec<Pick>,
            BTreeMap<String, u8>, BTreeMap<String, Value<()>>, Value<()>, ValueDef<()>, Composite<()>, Variant<()>, Primitive, BitSequence, (Value<()>, u8), serde::de::IgnoredAny,
        );
        for (k, v) in vs.iter().enumerate() {
            out.case("to_value", format!("value {k}"), || show(to_value(v)));
        }
        macro_rules! write_ {
            ($($e:expr),* $(,)?) => {$( out.case("to_value", stringify!($e), || show(to_value($e))); )*};
        }
        write_!(
            true, 'c', 1u8, -1i8, 1u16, -1i16, 1u32, -1i32, u64::MAX, i64::MIN, u128::MAX, i128::MIN, 1.5f32, 2.5f64, "s", String::from("t"), (), (1u8,), (1u8, "x"), Unit, One(4), Pick::A, Pick::B { a: 1 },
            Pick::C(1, None), Pick::C(1, Some(2)), Pick::D(One(1)), Some(1u8), None::<u8>, Some(Some(1u8)), vec![1u8, 2], [Pick::A, Pick::A], Pair { a: 1, b: None }, Pair { a: 1, b: Some(Box::new(Pick::A)) },
            BTreeMap::from([("a", 1u8), ("b", 2)]), BTreeMap::from([(1u8, 1u8)]), BTreeMap::from([('k', 1u8)]),
        );
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).expect("output file");
    let deep = std::env::args().nth(2).as_deref() == Some("thorough");
    let mut out = Out { file: std::io::BufWriter::new(std::fs::File::create(path).expect("output file")), deep };
    let vs = values(deep);
    printing(&mut out, &vs);
    access(&mut out, &vs);
    at_size(&mut out);
    scale(&mut out, &vs);
    #[cfg(feature = "from-string")]
    parsing(&mut out);
    #[cfg(feature = "parser-ss58")]
    ss58(&mut out);
    #[cfg(feature = "serde")]
    with_serde::run(&mut out, &vs);
}
