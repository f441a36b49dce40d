//! A04: the value-building macro. A program with every invocation of the bounded grammar is
//! written, compiled against the crate and run; what each invocation evaluates to is compared with
//! the value which the grammar says it describes.
use crate::engine::{item, step, verif_dir, Item, Rec, Tier};
use crate::vals::{self as w, V};
use scale_value::{Composite, ValueDef, Variant};
use std::collections::BTreeMap;
use std::path::PathBuf;

/// Some macro text, the value it describes, and how many counted expressions it contains.
#[derive(Clone)]
struct M {
    text: String,
    value: V,
    ticks: usize,
}

fn leaf(text: &str, value: V) -> M {
    M { text: text.into(), value, ticks: 0 }
}

/// Invocations in a module where the names the macro might reach for mean something else.
fn hostile() -> Vec<M> {
    let plain = [leaf("1u8", w::u(1)), leaf("\"s, (t)\"", w::s("s, (t)")), leaf("n", w::u(9))];
    let mut out = vec![leaf("", w::un(vec![])), leaf("()", w::un(vec![])), leaf("{}", w::nm(vec![])), plain[0].clone(), plain[2].clone()];
    let mut kids = plain.to_vec();
    for f in FS {
        for n in 0..=3usize {
            for comma in [false, true] {
                out.push(cont(f, "Vec", &[("String", "String"), ("\"vec\"", "vec")], &plain[..n], comma, true));
            }
        }
        kids.extend(out[out.len() - 6..out.len() - 5].iter().cloned());
    }
    for f in FS {
        for a in &kids {
            for b in &kids {
                out.push(cont(f, "Value", &[("fields", "fields"), ("Value", "Value")], &[a.clone(), b.clone()], false, false));
            }
        }
    }
    out
}

const HOSTILE: &str = "pub struct Vec; pub struct String; pub struct Value; pub struct Composite; pub struct Box; pub struct Some; pub trait ToString {} pub trait From {} pub trait Into {} macro_rules! vec { ($($t:tt)*) => { () } } macro_rules! stringify { ($($t:tt)*) => { () } } macro_rules! value_internal { ($($t:tt)*) => { () } }";

/// The expressions used as leaves: what surrounds them is in `preamble`.
fn leaves() -> Vec<M> {
    let tick = |text: &str, value| M { text: text.into(), value, ticks: 1 };
    vec![
        leaf("1u8", w::u(1)),
        tick("t.once(5u64)", w::u(5)),
        leaf("\"s, (t)\"", w::s("s, (t)")),
        leaf("x", w::un(vec![w::b(true), w::i(-4)])),
        leaf("-3i64", w::i(-3)),
        leaf("'c'", w::ch('c')),
        leaf("true", w::b(true)),
        leaf("7", w::i(7)),
        leaf("n + 1", w::u(10)),
        leaf("n as u8 * 2", w::u(18)),
        leaf("i::f(n, 2)", w::u(11)),
        leaf("i :: STATIC", w::s("static")),
        leaf("name.to_string()", w::s("Ann")),
        leaf("name.clone()", w::s("Ann")),
        leaf("&*name", w::s("Ann")),
        leaf("vec![1u8, 2]", w::un(vec![w::u(1), w::u(2)])),
        leaf("vec![(\"k\", n), (\"l\", 3)]", w::nm(vec![("k", w::u(9)), ("l", w::u(3))])),
        leaf("format!(\"{n}{}\", 1)", w::s("91")),
        leaf("[4u16, 5][1]", w::u(5)),
        leaf("!b", w::b(true)),
        leaf("if b { 1u8 } else { 2u8 }", w::u(2)),
        leaf("match n { 9 => \"nine\", _ => \"other\" }", w::s("nine")),
        leaf("*r", w::u(9)),
        leaf("n", w::u(9)),
        leaf("name", w::s("Ann")),
        leaf("fields", w::i(40)),
        leaf("field_name", w::i(41)),
        leaf("variant_name", w::i(42)),
        leaf("value!(A(1u8))", w::var("A", w::cu(vec![w::u(1)]))),
        leaf("value!({ a: (2u8,) })", w::nm(vec![("a", w::un(vec![w::u(2)]))])),
        leaf("Value::bool(b)", w::b(false)),
        leaf("bits", w::bits("10")),
        leaf("Value::primitive(Primitive::U256([3; 32]))", w::p(scale_value::Primitive::U256([3; 32]))),
        leaf("Composite::unnamed([Value::u128(1), value!(2u8)])", w::un(vec![w::u(1), w::u(2)])),
        leaf("Variant::unnamed_fields(\"W\", [])", w::var("W", w::cu(vec![]))),
    ]
}

const MAIN: &str = r#"
#![allow(warnings)]
#![recursion_limit = "512"]
use scale_value::{value, BitSequence, Composite, Primitive, Value, Variant};
use std::cell::Cell;

pub struct T(Cell<usize>);
impl T {
    fn once<X>(&self, x: X) -> X {
        self.0.set(self.0.get() + 1);
        x
    }
}
mod i {
    pub fn f(a: u32, b: u32) -> u32 { a + b }
    pub static STATIC: &str = "static";
}

fn main() {
    let mut out = String::new();
    let mut all: Vec<(usize, fn(&T) -> Value)> = vec![];
    //PARTS
    for (k, f) in all {
        let t = T(Cell::new(0));
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{:?}", f(&t))));
        let got = got.unwrap_or_else(|_| "PANIC".to_string());
        out += &format!("{k}\t{}\t{}\n", t.0.get(), got.replace('\\', "\\\\").replace('\n', "\\n"));
    }
    std::fs::write(std::env::args().nth(1).unwrap(), out).unwrap();
}
"#;

/// One invocation, as a function on one line.
fn line(k: usize, text: &str) -> String {
    if let Some(text) = text.strip_prefix(IN_HOSTILE) {
        return format!("pub fn c{k}(t: &T) -> Value {{ mod h {{ {HOSTILE} pub fn f() -> ::scale_value::Value {{ let n = 9u32; {text} }} }} h::f() }}\n");
    }
    format!("pub fn c{k}(t: &T) -> Value {{ let x = Value::unnamed_composite([Value::bool(true), Value::i128(-4)]); let n = 9u32; let name = String::from(\"Ann\"); let b = false; let r = &n; let fields = 40; let field_name = 41; let variant_name = 42; let bits: BitSequence = [true, false].into_iter().collect(); {text} }}\n")
}

#[derive(Clone, Copy, PartialEq)]
enum F {
    Un,
    Nm,
    VarUn,
    VarNm,
}
const FS: [F; 4] = [F::Un, F::Nm, F::VarUn, F::VarNm];

/// A container of the given flavour: names and keys are taken in turn.
fn cont(f: F, vname: &str, keys: &[(&str, &str)], kids: &[M], comma: bool, tight: bool) -> M {
    let sep = if tight { "," } else { " , " };
    let colon = if tight { ":" } else { " : " };
    let named = matches!(f, F::Nm | F::VarNm);
    let mut body = kids
        .iter()
        .enumerate()
        .map(|(k, m)| if named { format!("{}{colon}{}", keys[k % keys.len()].0, m.text) } else { m.text.clone() })
        .collect::<Vec<_>>()
        .join(sep);
    if comma && !kids.is_empty() {
        body += ",";
    }
    let c = if named {
        Composite::Named(kids.iter().enumerate().map(|(k, m)| (keys[k % keys.len()].1.to_string(), m.value.clone())).collect())
    } else {
        Composite::Unnamed(kids.iter().map(|m| m.value.clone()).collect())
    };
    let sp = if tight { "" } else { " " };
    let (text, value) = match f {
        F::Un => (format!("({body})"), w::v(ValueDef::Composite(c))),
        F::Nm => (format!("{{{sp}{body}{sp}}}"), w::v(ValueDef::Composite(c))),
        F::VarUn => (format!("{vname}{sp}({body})"), w::v(ValueDef::Variant(Variant { name: vname.into(), values: c }))),
        F::VarNm => (format!("{vname}{sp}{{{body}}}"), w::v(ValueDef::Variant(Variant { name: vname.into(), values: c }))),
    };
    M { text, value, ticks: kids.iter().map(|m| m.ticks).sum() }
}

const KEYS: [(&str, &str); 3] = [("a", "a"), ("b1_", "b1_"), ("a", "a")];

fn all(tier: Tier) -> Vec<M> {
    let ls = leaves();
    let mut out: Vec<M> = vec![leaf("", w::un(vec![])), leaf("()", w::un(vec![])), leaf("{}", w::nm(vec![]))];
    // leaves on their own, and alone, first and last in each container
    for l in &ls {
        out.push(l.clone());
        for f in FS {
            for kids in [vec![l.clone()], vec![l.clone(), ls[0].clone()], vec![ls[1].clone(), l.clone()], vec![l.clone(), l.clone(), l.clone()]] {
                let moved = kids.len() == 3 && matches!(l.text.as_str(), "x" | "name" | "bits");
                if !moved {
                    for comma in [false, true] {
                        out.push(cont(f, "V", &KEYS, &kids, comma, true));
                    }
                }
            }
        }
    }
    // all containers of up to three plain leaves
    let plain = &ls[..tier.pick(3, 4)];
    let plain: Vec<M> = plain.iter().filter(|l| l.text != "x").cloned().collect();
    for f in FS {
        for n in 0..=3usize {
            for kids in crate::tys::cart(&vec![plain.clone(); n], usize::MAX) {
                for (comma, tight) in [(false, true), (true, false)] {
                    out.push(cont(f, "Name_1", &KEYS, &kids, comma, tight));
                }
            }
        }
    }
    // keys and variant names of every spelling
    let keys: [(&str, &str); 12] = [
        ("x", "x"),
        ("n", "n"),
        ("fields", "fields"),
        ("\"a key\"", "a key"),
        ("\"\"", ""),
        ("\"q\\\"\\n\"", "q\"\n"),
        ("\"type\"", "type"),
        ("Upper", "Upper"),
        ("_u", "_u"),
        ("é", "é"),
        ("12", "12"),
        ("field_name", "field_name"),
    ];
    for a in &keys {
        for b in &keys {
            for f in [F::Nm, F::VarNm] {
                out.push(cont(f, "v1", &[*a, *b], &[ls[0].clone(), ls[1].clone()], a.0 < b.0, a.0 > b.0));
            }
        }
        out.push(cont(F::Nm, "", &[*a], &[cont(F::Nm, "", &[*a], &[ls[0].clone()], false, true)], true, true));
    }
    // keys which are literals of other kinds, and literals in brackets
    let more = [("(\"b\")", "b"), ("( \"a b\" )", "a b"), ("'x'", "x"), ("('y')", "y"), ("1", "1"), ("(5)", "5"), ("true", "true"), ("(\"\")", ""), ("(false)", "false")];
    for k in more {
        for f in [F::Nm, F::VarNm] {
            for kids in [vec![ls[0].clone()], vec![ls[0].clone(), ls[1].clone()], vec![ls[0].clone(), cont(f, "W", &[k], &ls[1..2], false, true)]] {
                for comma in [false, true] {
                    for ks in [[k, KEYS[0]], [KEYS[0], k], [k, k]] {
                        out.push(cont(f, "v1", &ks, &kids, comma, !comma));
                    }
                }
            }
        }
    }
    for n in ["V", "v", "x", "n", "name", "Some", "None", "Ok", "String", "Vec", "vec", "_v", "É", "value", "Value", "r2", "fields", "V1_2", "format", "b"] {
        let inner = cont(F::VarUn, n, &KEYS, &[ls[1].clone()], false, true);
        let inner2 = cont(F::VarNm, n, &KEYS, &[ls[1].clone()], false, false);
        for i in [inner, inner2] {
            out.push(i.clone());
            for f in FS {
                out.push(cont(f, n, &KEYS, &[i.clone(), ls[0].clone()], true, true));
                out.push(cont(f, "W", &[(n, n)], &[ls[0].clone(), i.clone()], false, false));
            }
        }
    }
    // containers within containers: every flavour and emptiness in every place
    let mut kids: Vec<M> = vec![ls[0].clone(), ls[1].clone()];
    for f in FS {
        kids.push(cont(f, "K", &KEYS, &ls[1..2], false, true));
        kids.push(cont(f, "E", &KEYS, &[], false, true));
        if tier == Tier::Thorough {
            kids.push(cont(f, "P", &KEYS, &[ls[2].clone(), ls[4].clone()], true, false));
        }
    }
    for f in FS {
        for n in 1..=2usize {
            for ks in crate::tys::cart(&vec![kids.clone(); n], usize::MAX) {
                for comma in [false, true] {
                    out.push(cont(f, "V", &KEYS, &ks, comma, !comma));
                }
            }
        }
    }
    let few: Vec<M> = kids.iter().enumerate().filter(|(k, _)| tier == Tier::Thorough || [0usize, 1, 2, 4, 6, 8].contains(k)).map(|x| x.1.clone()).collect();
    for f in FS {
        for ks in crate::tys::cart(&vec![few.clone(); 3], usize::MAX) {
            out.push(cont(f, "V", &KEYS, &ks, false, true));
        }
    }
    // deeper: a chain of flavours, the nested one first, in the middle or last
    let depth = tier.pick(3, 5);
    let mut chain: Vec<M> = vec![ls[1].clone(), cont(F::Nm, "", &KEYS, &[], false, true)];
    for d in 0..depth {
        let mut next = vec![];
        for m in &chain {
            for f in FS {
                for (place, comma) in [(0, false), (1, true), (2, false)] {
                    let ks = match place {
                        0 => vec![m.clone(), ls[0].clone()],
                        1 => vec![m.clone()],
                        _ => vec![ls[2].clone(), ls[4].clone(), m.clone()],
                    };
                    next.push(cont(f, "D", &KEYS, &ks, comma, true));
                }
            }
        }
        let cap = tier.pick(160, 1200);
        if d > 0 {
            out.extend(next.iter().cloned());
        }
        let n = next.len();
        chain = next.into_iter().enumerate().filter(|(k, _)| n <= cap || k * cap / n != (k + 1) * cap / n).map(|x| x.1).collect();
    }
    // longer lists, within the default recursion limit
    for n in [4usize, 5, 8, 12, 20] {
        for f in FS {
            for comma in [false, true] {
                let ks: Vec<M> = (0..n).map(|k| if k % 3 == 2 { cont(FS[k % 4], "L", &KEYS, &ls[1..2], false, true) } else { leaf(&format!("{k}u8"), w::u(k as u128)) }).collect();
                out.push(cont(f, "V", &KEYS, &ks, comma, true));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|m| seen.insert(m.text.clone()));
    out
}

const IN_HOSTILE: &str = "/* shadowed names */ ";

/// The invocations: the text with one of the delimiters, and what it describes.
fn programs(tier: Tier) -> Vec<M> {
    let mut out = vec![];
    for (k, m) in all(tier).into_iter().enumerate() {
        let d = if k < 40 { vec![0, 1, 2] } else { vec![k % 3] };
        for d in d {
            let mut m = m.clone();
            m.text = match d {
                0 => format!("value!({})", m.text),
                1 => format!("value![{}]", m.text),
                _ => format!("value!{{{}}}", m.text),
            };
            out.push(m);
        }
    }
    out.extend(hostile().into_iter().map(|m| M { text: format!("{IN_HOSTILE}::scale_value::value!({})", m.text), ..m }));
    out
}

fn dir(tier: Tier) -> PathBuf {
    verif_dir().join("mc/target/macros").join(tier.name())
}

const PART: usize = 250;

/// Write, compile and run the program. Invocations which don't compile are recorded as such.
pub fn prepare(tier: Tier) -> Result<(), String> {
    let ps = programs(tier);
    let d = dir(tier);
    let io = |e: std::io::Error| format!("{e}");
    std::fs::create_dir_all(d.join("src")).map_err(io)?;
    let toml = std::fs::read_to_string(verif_dir().join("mc/Cargo.toml")).map_err(io)?;
    let dep = toml.lines().find(|l| l.starts_with("scale-value")).ok_or("no dependency line")?;
    let name = format!("mcm-{}", tier.name());
    let cargo = format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[dependencies]\n{dep}\n\n[profile.release]\nopt-level = 0\ndebug = false\ndebug-assertions = true\noverflow-checks = true\nincremental = false\n");
    let put = |p: PathBuf, s: &str| -> Result<(), String> {
        if std::fs::read_to_string(&p).ok().as_deref() != Some(s) {
            std::fs::write(p, s).map_err(|e| format!("{e}"))?;
        }
        Ok(())
    };
    put(d.join("Cargo.toml"), &cargo)?;
    if !d.join("Cargo.lock").exists() {
        std::fs::copy(verif_dir().join("mc/Cargo.lock"), d.join("Cargo.lock")).map_err(io)?;
    }
    let mut broken: BTreeMap<usize, String> = BTreeMap::new();
    let parts = ps.len().div_ceil(PART);
    let main = {
        let mods: String = (0..parts).map(|k| format!("mod p{k};\n")).collect();
        let adds: String = (0..parts).map(|k| format!("p{k}::add(&mut all);\n    ")).collect();
        MAIN.replace("//PARTS", &adds) + &mods
    };
    put(d.join("src/main.rs"), &main)?;
    for round in 0..6 {
        for p in 0..parts {
            let mut s = String::from("use super::*;\n");
            let mut adds = String::from("pub fn add(all: &mut Vec<(usize, fn(&T) -> Value)>) {\n");
            for (k, m) in ps.iter().enumerate().skip(p * PART).take(PART) {
                if broken.contains_key(&k) {
                    s += "\n";
                } else {
                    s += &line(k, &m.text);
                    adds += &format!("    all.push(({k}, c{k}));\n");
                }
            }
            s += &adds;
            s += "}\n";
            put(d.join(format!("src/p{p}.rs")), &s)?;
        }
        let o = std::process::Command::new("cargo")
            .args(["build", "--release", "--offline", "--message-format=json", "--manifest-path"])
            .arg(d.join("Cargo.toml"))
            .env("CARGO_TARGET_DIR", verif_dir().join("mc/target/macros/target"))
            .output()
            .map_err(io)?;
        if o.status.success() {
            let out = d.join("out.txt");
            let _ = std::fs::remove_file(&out);
            let st = std::process::Command::new(verif_dir().join("mc/target/macros/target/release").join(&name)).arg(&out).stderr(std::process::Stdio::null()).status().map_err(io)?;
            if !st.success() {
                return Err(format!("the generated program failed: {st}"));
            }
            let mut text = std::fs::read_to_string(&out).map_err(io)?;
            for (k, e) in &broken {
                text += &format!("{k}\t!\t{}\n", e.replace('\\', "\\\\").replace('\n', "\\n"));
            }
            std::fs::write(&out, text).map_err(io)?;
            return Ok(());
        }
        let mut new = 0;
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
                continue;
            }
            let mut at = vec![];
            places(&v["message"], &mut at);
            for (part, line) in at {
                let k = part * PART + line.wrapping_sub(2);
                if k < ps.len() && !broken.contains_key(&k) {
                    broken.insert(k, v["message"]["message"].as_str().unwrap_or("").to_string());
                    new += 1;
                }
            }
        }
        if new == 0 || round == 5 {
            return Err(format!("the generated program does not build:\n{}", String::from_utf8_lossy(&o.stderr).lines().rev().take(20).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n")));
        }
    }
    unreachable!()
}

/// Where in the generated files a compiler message points, through macro expansions.
fn places(v: &serde_json::Value, out: &mut Vec<(usize, usize)>) {
    match v {
        serde_json::Value::Object(o) => {
            if let (Some(f), Some(l)) = (o.get("file_name").and_then(|f| f.as_str()), o.get("line_start").and_then(|l| l.as_u64())) {
                let base = f.rsplit('/').next().unwrap_or("");
                if let Some(p) = base.strip_prefix('p').and_then(|b| b.strip_suffix(".rs")).and_then(|p| p.parse().ok()) {
                    out.push((p, l as usize));
                }
            }
            o.values().for_each(|v| places(v, out));
        }
        serde_json::Value::Array(a) => a.iter().for_each(|v| places(v, out)),
        _ => {}
    }
}

pub fn a04(tier: Tier) -> Vec<Item> {
    let parts = programs(tier).len().div_ceil(PART);
    (0..parts)
        .map(|p| {
            item(format!("invocations, part {p}"), move |rec: &mut Rec| {
                let out = std::fs::read_to_string(dir(rec.tier).join("out.txt")).expect("output of the generated program");
                let got: BTreeMap<usize, (&str, &str)> = out
                    .lines()
                    .map(|l| {
                        let mut f = l.splitn(3, '\t');
                        (f.next().unwrap().parse().unwrap(), (f.next().unwrap(), f.next().unwrap()))
                    })
                    .collect();
                for (k, m) in programs(rec.tier).iter().enumerate().skip(p * PART).take(PART) {
                    rec.case(
                        || m.text.clone(),
                        || {
                            step();
                            let (ticks, text) = got[&k];
                            if ticks == "!" {
                                return Err(format!("does not compile: {text}"));
                            }
                            let want = format!("{:?}", m.value).replace('\\', "\\\\").replace('\n', "\\n");
                            if text != want {
                                return Err(format!("evaluates to {text}, not {want}"));
                            }
                            if ticks != m.ticks.to_string() {
                                return Err(format!("evaluates its {} counted expressions {ticks} times in all", m.ticks));
                            }
                            Ok(match &m.value.value {
                                ValueDef::Composite(Composite::Named(_)) => "named composite",
                                ValueDef::Composite(_) => "unnamed composite",
                                ValueDef::Variant(Variant { values: Composite::Named(_), .. }) => "named variant",
                                ValueDef::Variant(_) => "unnamed variant",
                                _ => "leaf",
                            })
                        },
                    );
                }
            })
        })
        .collect()
}
