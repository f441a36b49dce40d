//! J08: conversion to a value follows exactly the calls the data's own serialization makes.
use crate::engine::*;
use crate::tys::{int_bits, showv, P, IINTS, UINTS};
use crate::vals::{self as w, V};
use scale_value::serde::{to_value, ValueSerializer};
use scale_value::{Composite, Value};
use serde::ser::{Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Serialize, Serializer};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Len {
    True,
    Unknown,
    Says(usize),
}
impl Len {
    fn opt(self, n: usize) -> Option<usize> {
        match self {
            Len::True => Some(n),
            Len::Unknown => None,
            Len::Says(k) => Some(k),
        }
    }
    fn must(self, n: usize) -> usize {
        self.opt(n).unwrap_or(n)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Lists {
    Seq,
    Tuple,
    TupleStruct,
    TupleCase,
    /// `collect_seq`
    Collected,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Maps {
    /// Key and value one after the other
    Apart,
    /// `serialize_entry`
    Entry,
    /// `collect_map`
    Collected,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Texts {
    Str,
    /// `collect_str`, in this many pieces
    Shown(usize),
}
/// A datum as the script of serializer calls it makes.
#[derive(Clone, Debug)]
enum Sc {
    Bool(bool),
    U(P, u128),
    I(P, i128),
    F32(f32),
    F64(f64),
    Char(char),
    Text(String, Texts),
    Bytes(Vec<u8>),
    None,
    Some(Box<Sc>),
    Unit,
    UnitStruct,
    UnitCase(&'static str),
    Newtype(Box<Sc>),
    NewtypeCase(&'static str, Box<Sc>),
    /// `lenient`: goes on after an item that cannot be serialized.
    List { kind: Lists, items: Vec<Sc>, len: Len, lenient: bool },
    /// No script: the field is skipped.
    Fields { case: Option<&'static str>, fields: Vec<(&'static str, Option<Sc>)>, len: Len, lenient: bool },
    Map { kind: Maps, entries: Vec<(Sc, Sc)>, len: Len, lenient: bool },
    Fail,
}
struct Pieces<'a>(&'a str, usize);
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let cs: Vec<char> = self.0.chars().collect();
        for p in cs.chunks(self.1.max(1)) {
            f.write_str(&p.iter().collect::<String>())?;
        }
        Ok(())
    }
}
fn let_go<E>(r: Result<(), E>, lenient: bool) -> Result<(), E> {
    if lenient {
        Ok(())
    } else {
        r
    }
}
impl Serialize for Sc {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        macro_rules! list {
            ($s:expr, $items:ident, $lenient:ident, $m:ident) => {{
                let mut s = $s;
                for x in $items {
                    let_go(s.$m(x), *$lenient)?;
                }
                s.end()
            }};
        }
        macro_rules! fields {
            ($s:expr, $fields:ident, $lenient:ident) => {{
                let mut s = $s;
                for (n, x) in $fields {
                    match x {
                        Some(x) => let_go(s.serialize_field(n, x), *$lenient)?,
                        None => s.skip_field(n)?,
                    }
                }
                s.end()
            }};
        }
        match self {
            Sc::Bool(b) => s.serialize_bool(*b),
            Sc::U(p, n) => match p {
                P::U8 => s.serialize_u8(*n as u8),
                P::U16 => s.serialize_u16(*n as u16),
                P::U32 => s.serialize_u32(*n as u32),
                P::U64 => s.serialize_u64(*n as u64),
                _ => s.serialize_u128(*n),
            },
            Sc::I(p, n) => match p {
                P::I8 => s.serialize_i8(*n as i8),
                P::I16 => s.serialize_i16(*n as i16),
                P::I32 => s.serialize_i32(*n as i32),
                P::I64 => s.serialize_i64(*n as i64),
                _ => s.serialize_i128(*n),
            },
            Sc::F32(x) => s.serialize_f32(*x),
            Sc::F64(x) => s.serialize_f64(*x),
            Sc::Char(c) => s.serialize_char(*c),
            Sc::Text(t, Texts::Str) => s.serialize_str(t),
            Sc::Text(t, Texts::Shown(n)) => s.collect_str(&Pieces(t, *n)),
            Sc::Bytes(b) => s.serialize_bytes(b),
            Sc::None => s.serialize_none(),
            Sc::Some(x) => s.serialize_some(&**x),
            Sc::Unit => s.serialize_unit(),
            Sc::UnitStruct => s.serialize_unit_struct("Some"),
            Sc::UnitCase(n) => s.serialize_unit_variant("E", 3, n),
            Sc::Newtype(x) => s.serialize_newtype_struct("None", &**x),
            Sc::NewtypeCase(n, x) => s.serialize_newtype_variant("E", 0, n, &**x),
            Sc::List { kind, items, len, lenient } => {
                let n = items.len();
                match kind {
                    Lists::Seq => list!(s.serialize_seq(len.opt(n))?, items, lenient, serialize_element),
                    Lists::Tuple => list!(s.serialize_tuple(len.must(n))?, items, lenient, serialize_element),
                    Lists::TupleStruct => list!(s.serialize_tuple_struct("T", len.must(n))?, items, lenient, serialize_field),
                    Lists::TupleCase => list!(s.serialize_tuple_variant("E", 7, "C", len.must(n))?, items, lenient, serialize_field),
                    Lists::Collected => s.collect_seq(items.iter()),
                }
            }
            Sc::Fields { case: None, fields, len, lenient } => fields!(s.serialize_struct("S", len.must(fields.len()))?, fields, lenient),
            Sc::Fields { case: Some(c), fields, len, lenient } => fields!(s.serialize_struct_variant("E", 1, c, len.must(fields.len()))?, fields, lenient),
            Sc::Map { kind, entries, len, lenient } => {
                if *kind == Maps::Collected {
                    return s.collect_map(entries.iter().map(|(k, x)| (k, x)));
                }
                let mut s = s.serialize_map(len.opt(entries.len()))?;
                for (k, x) in entries {
                    if *kind == Maps::Entry {
                        let_go(s.serialize_entry(k, x), *lenient)?;
                    } else {
                        match s.serialize_key(k) {
                            Ok(()) => let_go(s.serialize_value(x), *lenient)?,
                            Err(e) => let_go(Err(e), *lenient)?,
                        }
                    }
                }
                s.end()
            }
            Sc::Fail => Err(S::Error::custom("the datum failed")),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum No {
    Datum,
    Float,
    Key,
    /// Keys that are neither plainly text nor plainly not.
    Unclear,
}
/// The items that are serialized, or why the whole is not.
fn kept<X>(xs: impl Iterator<Item = Result<X, No>>, lenient: bool) -> Result<Vec<X>, No> {
    let mut out = vec![];
    for x in xs {
        match x {
            Ok(x) => out.push(x),
            Err(No::Unclear) => return Err(No::Unclear),
            Err(_) if lenient => {}
            Err(e) => return Err(e),
        }
    }
    Ok(out)
}
fn want(x: &Sc) -> Result<V, No> {
    let case = |n: &str, c: Composite<()>| w::var(n, c);
    Ok(match x {
        Sc::Bool(b) => Value::bool(*b),
        Sc::U(_, n) => Value::u128(*n),
        Sc::I(_, n) => Value::i128(*n),
        Sc::F32(_) | Sc::F64(_) => return Err(No::Float),
        Sc::Char(c) => Value::char(*c),
        Sc::Text(s, _) => w::s(s),
        Sc::Bytes(b) => w::un(b.iter().map(|b| w::u(*b as u128)).collect()),
        Sc::None => case("None", w::cu(vec![])),
        Sc::Some(x) => case("Some", w::cu(vec![want(x)?])),
        Sc::Unit | Sc::UnitStruct => w::un(vec![]),
        Sc::UnitCase(n) => case(n, w::cu(vec![])),
        Sc::Newtype(x) => w::un(vec![want(x)?]),
        Sc::NewtypeCase(n, x) => case(n, w::cu(vec![want(x)?])),
        Sc::List { kind, items, lenient, .. } => {
            let xs = kept(items.iter().map(want), *lenient && *kind != Lists::Collected)?;
            if *kind == Lists::TupleCase {
                case("C", w::cu(xs))
            } else {
                w::un(xs)
            }
        }
        Sc::Fields { case: c, fields, lenient, .. } => {
            let xs = kept(fields.iter().filter_map(|(n, x)| x.as_ref().map(|x| want(x).map(|x| (n.to_string(), x)))), *lenient)?;
            match c {
                Some(c) => case(c, Composite::Named(xs)),
                None => V { value: scale_value::ValueDef::Composite(Composite::Named(xs)), context: () },
            }
        }
        Sc::Map { kind, entries, lenient, .. } => {
            let key = |k: &Sc| match k {
                Sc::Char(c) => Ok(c.to_string()),
                Sc::Text(s, _) => Ok(s.clone()),
                Sc::UnitCase(_) | Sc::Newtype(_) => Err(No::Unclear),
                k => match want(k) {
                    Err(e) => Err(e),
                    Ok(_) => Err(No::Key),
                },
            };
            let xs = kept(entries.iter().map(|(k, x)| key(k).and_then(|k| want(x).map(|x| (k, x)))), *lenient && *kind != Maps::Collected)?;
            V { value: scale_value::ValueDef::Composite(Composite::Named(xs)), context: () }
        }
        Sc::Fail => return Err(No::Datum),
    })
}
fn size(x: &Sc) -> u64 {
    1 + match x {
        Sc::Text(s, _) => s.len() as u64,
        Sc::Bytes(b) => b.len() as u64,
        Sc::Some(x) | Sc::Newtype(x) | Sc::NewtypeCase(_, x) => size(x),
        Sc::List { items, .. } => items.iter().map(size).sum(),
        Sc::Fields { fields, .. } => fields.iter().map(|f| 4 + f.1.as_ref().map_or(0, size)).sum(),
        Sc::Map { entries, .. } => entries.iter().map(|(k, x)| size(k) + size(x)).sum(),
        _ => 0,
    }
}
fn convert(x: &Sc) -> Verdict {
    steps(2);
    let (got, used) = crate::alloc::measure(|| to_value(x));
    let room = (1 << 20) + 3000 * size(x);
    if used.bytes > room {
        return Err(format!("{} bytes were asked for, more than {room}", used.bytes));
    }
    let again = x.serialize(ValueSerializer);
    match (&got, &again) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("to_value gives {got:?}, the serializer {again:?}")),
    }
    match (got, want(x)) {
        (Ok(v), Ok(y)) if v == y => Ok(match &v.value {
            scale_value::ValueDef::Composite(_) => "composite",
            scale_value::ValueDef::Variant(_) => "variant",
            _ => "primitive",
        }),
        (Err(e), Err(No::Datum)) => {
            if !e.to_string().contains("the datum failed") {
                return Err(format!("the datum's own error became: {e}"));
            }
            Ok("datum fails")
        }
        (Err(_), Err(_)) | (Ok(_), Err(No::Unclear)) => Ok("refused"),
        (Ok(v), Ok(y)) => Err(format!("becomes {} instead of {}", showv(&v), showv(&y))),
        (Ok(v), Err(no)) => Err(format!("becomes {} instead of an error ({no:?})", showv(&v))),
        (Err(e), Ok(y)) => Err(format!("refused ({e}) instead of becoming {}", showv(&y))),
    }
}

/// Floats of every kind and size: whole and not, at every power of two, the smallest and the largest.
pub fn floats(bits: u32) -> Vec<f64> {
    let (max, least) = if bits == 32 { (f32::MAX as f64, f32::from_bits(1) as f64) } else { (f64::MAX, f64::from_bits(1)) };
    let mut out = vec![0.0, -0.0, 0.5, -1.5, 1e9, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, max, -max, least, -least];
    for n in (0..=128).step_by(1) {
        let p = 2f64.powi(n);
        out.extend([p, -p, p - 1.0, p + 0.5]);
    }
    out.retain(|x| bits == 64 || !x.is_finite() || x.abs() <= max);
    out
}

fn leaves() -> Vec<Sc> {
    let mut out = vec![Sc::Bool(true), Sc::Bool(false)];
    for p in UINTS {
        let (bits, _) = int_bits(p).unwrap();
        let hi = u128::MAX >> (128 - bits);
        out.extend([0, 1, hi / 2, hi / 2 + 1, hi].map(|n| Sc::U(p, n)));
    }
    for p in IINTS {
        let (bits, _) = int_bits(p).unwrap();
        let hi = (u128::MAX >> (129 - bits)) as i128;
        out.extend([-hi - 1, -1, 0, 1, hi].map(|n| Sc::I(p, n)));
    }
    out.extend(['a', 'Z', 'É', '1', ' ', '\0', '"', '\u{10ffff}'].map(Sc::Char));
    for s in ["", "a", "é\"\\", "None", " X y ", "ÉcoLE", crate::j::MARK] {
        for t in [Texts::Str, Texts::Shown(1), Texts::Shown(100)] {
            out.push(Sc::Text(s.into(), t));
        }
    }
    out.extend([vec![], vec![0], vec![255, 0], vec![7; 33]].map(Sc::Bytes));
    out.extend([Sc::None, Sc::Unit, Sc::UnitStruct, Sc::UnitCase("Some"), Sc::UnitCase(""), Sc::Fail]);
    out.extend(floats(32).into_iter().map(|x| Sc::F32(x as f32)));
    out.extend(floats(64).into_iter().map(Sc::F64));
    out
}
fn few() -> Vec<Sc> {
    vec![
        Sc::U(P::U8, 5),
        Sc::I(P::I64, -1),
        Sc::Text("a".into(), Texts::Str),
        Sc::Char('b'),
        Sc::F64(1.0),
        Sc::Fail,
        Sc::None,
        Sc::Unit,
        Sc::UnitCase("A"),
        Sc::Bytes(vec![1, 2]),
    ]
}
const LENS: [Len; 7] = [Len::True, Len::Unknown, Len::Says(0), Len::Says(1), Len::Says(1000), Len::Says(1 << 40), Len::Says(usize::MAX)];
fn around(x: &Sc, lens: &[Len]) -> Vec<Sc> {
    let b = || Box::new(x.clone());
    let one = || Sc::U(P::U16, 1);
    let mut out = vec![Sc::Some(b()), Sc::Newtype(b()), Sc::NewtypeCase("Some", b()), Sc::NewtypeCase("é x", b())];
    for &len in lens {
        for lenient in [false, true] {
            let lists = [vec![], vec![x.clone()], vec![x.clone(), one()], vec![one(), x.clone()], vec![x.clone(), x.clone(), Sc::Bool(true)]];
            for items in lists {
                for kind in [Lists::Seq, Lists::Tuple, Lists::TupleStruct, Lists::TupleCase, Lists::Collected] {
                    out.push(Sc::List { kind, items: items.clone(), len, lenient });
                }
            }
            let fields = [
                vec![],
                vec![("a", Some(x.clone()))],
                vec![("a", Some(x.clone())), ("b", Some(one()))],
                vec![("b", Some(one())), ("a", Some(x.clone()))],
                vec![("a", Some(x.clone())), ("a", Some(one()))],
                vec![("a", None), ("b", Some(x.clone()))],
                vec![("a", Some(x.clone())), ("", None)],
                vec![("values", None)],
                vec![(crate::j::MARK, Some(x.clone()))],
            ];
            for fields in fields {
                for case in [None, Some("None"), Some("C")] {
                    out.push(Sc::Fields { case, fields: fields.clone(), len, lenient });
                }
            }
            let s = |n: &str| Sc::Text(n.into(), Texts::Str);
            let maps = [
                vec![],
                vec![(s("a"), x.clone())],
                vec![(x.clone(), one())],
                vec![(s("b"), x.clone()), (s("a"), one())],
                vec![(x.clone(), x.clone()), (Sc::Char('k'), x.clone())],
                vec![(s("a"), one()), (s("a"), x.clone())],
                vec![(s(crate::j::MARK), x.clone())],
            ];
            for entries in maps {
                for kind in [Maps::Apart, Maps::Entry, Maps::Collected] {
                    out.push(Sc::Map { kind, entries: entries.clone(), len, lenient });
                }
            }
        }
    }
    out
}
pub fn j08(tier: Tier) -> Vec<Item> {
    let n = tier.pick(32, 64);
    let mut out = w::spread("flat", 4, |_| leaves(), |x, rec| rec.case(|| format!("{x:?}"), || convert(x)));
    out.extend(w::spread(
        "nested",
        n,
        |_| leaves(),
        |x, rec| {
            for e in around(x, &LENS) {
                rec.case(|| format!("{e:?}"), || convert(&e));
            }
        },
    ));
    out.extend(w::spread(
        "nested twice",
        n,
        |tier| few().iter().chain(leaves().iter().take(tier.pick(0, 200))).flat_map(|x| around(x, &LENS[..tier.pick(2, 4)])).collect(),
        |x, rec| {
            for e in around(x, &LENS[..rec.tier.pick(1, 2)]) {
                rec.case(|| format!("{e:?}"), || convert(&e));
            }
        },
    ));
    out.push(item("names", |rec| {
        let names = w::all_names();
        let x = || Sc::U(P::U8, 1);
        for (k, &n) in names.iter().enumerate() {
            let m = names[(k + 1) % names.len()];
            let mut all = vec![Sc::UnitCase(n), Sc::NewtypeCase(n, Box::new(x())), Sc::NewtypeCase(n, Box::new(Sc::UnitCase(m)))];
            for case in [None, Some(n), Some("C")] {
                for fields in [vec![], vec![(n, Some(x()))], vec![(n, Some(x())), (m, Some(x()))], vec![(m, None), (n, Some(x()))]] {
                    all.push(Sc::Fields { case, fields, len: Len::True, lenient: false });
                }
            }
            for kind in [Maps::Apart, Maps::Entry, Maps::Collected] {
                for t in [Texts::Str, Texts::Shown(1), Texts::Shown(100)] {
                    let key = |n: &str| Sc::Text(n.into(), t);
                    for entries in [vec![(key(n), x())], vec![(key(n), x()), (key(m), x())]] {
                        all.push(Sc::Map { kind, entries, len: Len::True, lenient: false });
                    }
                }
            }
            for e in all {
                rec.case(|| format!("{e:?}"), || convert(&e));
            }
        }
        for c in (0..0x110000).step_by(rec.tier.pick(37, 1)).filter_map(char::from_u32) {
            let m = Sc::Map { kind: Maps::Entry, entries: vec![(Sc::Char(c), x()), (Sc::Text(format!("{c}"), Texts::Str), x())], len: Len::True, lenient: false };
            rec.case(|| format!("{m:?}"), || convert(&m));
        }
    }));
    out.push(item("long", |rec| {
        static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
        let names = NAMES.get_or_init(|| (0..70_000).map(|k| &*Box::leak(k.to_string().into_boxed_str())).collect());
        for n in crate::big::lengths(20, &[6, 7, 8, 12, 14, 16]) {
            for len in LENS {
                let k = |k: usize| Sc::U(P::U32, k as u128);
                let l = Sc::List { kind: Lists::Seq, items: (0..n).map(k).collect(), len, lenient: false };
                let t = Sc::List { kind: Lists::TupleCase, items: (0..n).map(k).collect(), len, lenient: false };
                let f = Sc::Fields { case: None, fields: (0..n).map(|i| (names[i], Some(k(i)))).collect(), len, lenient: false };
                let m = Sc::Map { kind: Maps::Apart, entries: (0..n).map(|i| (Sc::Text(i.to_string(), Texts::Str), k(i))).collect(), len, lenient: false };
                for (what, x) in [("list", l), ("tuple case", t), ("struct", f), ("map", m)] {
                    rec.case(|| format!("{what} of {n}, announced {len:?}"), || convert(&x));
                }
            }
        }
        for d in 1..=rec.tier.pick(40, 200) {
            for k in 0..4 {
                let mut x = Sc::U(P::U8, 1);
                for _ in 0..d {
                    x = match k {
                        0 => Sc::Some(Box::new(x)),
                        1 => Sc::Newtype(Box::new(x)),
                        2 => Sc::List { kind: Lists::Seq, items: vec![x], len: Len::True, lenient: false },
                        _ => Sc::Fields { case: Some("C"), fields: vec![("x", Some(x))], len: Len::True, lenient: false },
                    };
                }
                rec.case(|| format!("{k} nested {d} deep"), || convert(&x));
            }
        }
    }));
    out
}
