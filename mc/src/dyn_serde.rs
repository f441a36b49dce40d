//! Rust data types and their values as data: every type that `#[derive(Serialize, Deserialize)]`
//! can produce (in serde's default representation), interpreted by making exactly the calls the
//! derived code makes. This lets the checks range over all such types up to a nesting depth.
//! (`j.rs` also runs really derived types, which keeps this interpreter honest.)
use crate::tys::{Id, Reg, F, P, T};
use crate::vals as w;
use crate::vals::V;
use codec::{Compact, Encode};
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

pub type Names = &'static [&'static str];

#[derive(Clone, Debug, PartialEq)]
pub enum DT {
    Bool,
    Int(P),
    Char,
    Str,
    /// A byte buffer, as `serde_bytes` or hand written code would serialize it.
    Bytes,
    Opt(Box<DT>),
    Unit,
    UnitStruct,
    Newtype(Box<DT>),
    Seq(Box<DT>),
    Tuple(Vec<DT>),
    TupleStruct(Vec<DT>),
    Map(Box<DT>),
    CharMap(Box<DT>),
    Struct(Names, Vec<DT>),
    Enum(Names, Vec<VT>),
    /// A dynamic value, left as it is.
    Any,
}
#[derive(Clone, Debug, PartialEq)]
pub enum VT {
    Unit,
    Newtype(Box<DT>),
    Tuple(Vec<DT>),
    Struct(Names, Vec<DT>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum DD {
    Bool(bool),
    U(u128),
    I(i128),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<DD>),
    Unit,
    /// Newtype content.
    Wrap(Box<DD>),
    /// Sequences, tuples, tuple structs and struct fields.
    List(Vec<DD>),
    Map(Vec<(String, DD)>),
    Var(usize, Box<DD>),
    Any(V),
}

pub fn show(t: &DT) -> String {
    let l = |ts: &[DT]| ts.iter().map(show).collect::<Vec<_>>().join(",");
    let f = |n: Names, ts: &[DT]| n.iter().zip(ts).map(|(n, t)| format!("{n}:{}", show(t))).collect::<Vec<_>>().join(",");
    match t {
        DT::Bool => "bool".into(),
        DT::Int(p) => format!("{p:?}").to_lowercase(),
        DT::Char => "char".into(),
        DT::Str => "String".into(),
        DT::Bytes => "bytes".into(),
        DT::Any => "Value".into(),
        DT::Opt(t) => format!("Option<{}>", show(t)),
        DT::Unit => "()".into(),
        DT::UnitStruct => "struct U".into(),
        DT::Newtype(t) => format!("N({})", show(t)),
        DT::Seq(t) => format!("Vec<{}>", show(t)),
        DT::Tuple(ts) => format!("({},)", l(ts)),
        DT::TupleStruct(ts) => format!("T({})", l(ts)),
        DT::Map(t) => format!("Map<String,{}>", show(t)),
        DT::CharMap(t) => format!("Map<char,{}>", show(t)),
        DT::Struct(n, ts) => format!("S{{{}}}", f(n, ts)),
        DT::Enum(n, vs) => format!(
            "enum{{{}}}",
            n.iter()
                .zip(vs)
                .map(|(n, v)| match v {
                    VT::Unit => n.to_string(),
                    VT::Newtype(t) => format!("{n}({})", show(t)),
                    VT::Tuple(ts) => format!("{n}({};)", l(ts)),
                    VT::Struct(m, ts) => format!("{n}{{{}}}", f(m, ts)),
                })
                .collect::<Vec<_>>()
                .join("|")
        ),
    }
}

// ------------------------------------------------------------------ serializing, as derived code does

pub struct With<'a>(pub &'a DT, pub &'a DD);

impl Serialize for With<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (DT::Bool, DD::Bool(b)) => b.serialize(s),
            (DT::Int(p), DD::U(n)) => match p {
                P::U8 => (*n as u8).serialize(s),
                P::U16 => (*n as u16).serialize(s),
                P::U32 => (*n as u32).serialize(s),
                P::U64 => (*n as u64).serialize(s),
                _ => n.serialize(s),
            },
            (DT::Int(p), DD::I(n)) => match p {
                P::I8 => (*n as i8).serialize(s),
                P::I16 => (*n as i16).serialize(s),
                P::I32 => (*n as i32).serialize(s),
                P::I64 => (*n as i64).serialize(s),
                _ => n.serialize(s),
            },
            (DT::Char, DD::Char(c)) => c.serialize(s),
            (DT::Str, DD::Str(x)) => x.serialize(s),
            (DT::Bytes, DD::Bytes(b)) => s.serialize_bytes(b),
            (DT::Any, DD::Any(v)) => v.serialize(s),
            (DT::Opt(_), DD::None) => s.serialize_none(),
            (DT::Opt(t), DD::Some(x)) => s.serialize_some(&With(t, x)),
            (DT::Unit, DD::Unit) => s.serialize_unit(),
            (DT::UnitStruct, DD::Unit) => s.serialize_unit_struct("U"),
            (DT::Newtype(t), DD::Wrap(x)) => s.serialize_newtype_struct("N", &With(t, x)),
            (DT::Seq(t), DD::List(xs)) => {
                let mut q = s.serialize_seq(Some(xs.len()))?;
                for x in xs {
                    q.serialize_element(&With(t, x))?;
                }
                q.end()
            }
            (DT::Tuple(ts), DD::List(xs)) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for (t, x) in ts.iter().zip(xs) {
                    q.serialize_element(&With(t, x))?;
                }
                q.end()
            }
            (DT::TupleStruct(ts), DD::List(xs)) => {
                let mut q = s.serialize_tuple_struct("T", xs.len())?;
                for (t, x) in ts.iter().zip(xs) {
                    q.serialize_field(&With(t, x))?;
                }
                q.end()
            }
            (DT::Map(t), DD::Map(xs)) => {
                let mut q = s.serialize_map(Some(xs.len()))?;
                for (k, x) in xs {
                    q.serialize_entry(k, &With(t, x))?;
                }
                q.end()
            }
            (DT::CharMap(t), DD::Map(xs)) => {
                let mut q = s.serialize_map(None)?;
                for (k, x) in xs {
                    q.serialize_key(&k.chars().next().unwrap())?;
                    q.serialize_value(&With(t, x))?;
                }
                q.end()
            }
            (DT::Struct(n, ts), DD::List(xs)) => {
                let mut q = s.serialize_struct("S", xs.len())?;
                for ((n, t), x) in n.iter().zip(ts).zip(xs) {
                    q.serialize_field(n, &With(t, x))?;
                }
                q.end()
            }
            (DT::Enum(n, vs), DD::Var(k, x)) => match (&vs[*k], &**x) {
                (VT::Unit, _) => s.serialize_unit_variant("E", *k as u32, n[*k]),
                (VT::Newtype(t), x) => s.serialize_newtype_variant("E", *k as u32, n[*k], &With(t, x)),
                (VT::Tuple(ts), DD::List(xs)) => {
                    let mut q = s.serialize_tuple_variant("E", *k as u32, n[*k], xs.len())?;
                    for (t, x) in ts.iter().zip(xs) {
                        q.serialize_field(&With(t, x))?;
                    }
                    q.end()
                }
                (VT::Struct(m, ts), DD::List(xs)) => {
                    let mut q = s.serialize_struct_variant("E", *k as u32, n[*k], xs.len())?;
                    for ((m, t), x) in m.iter().zip(ts).zip(xs) {
                        q.serialize_field(m, &With(t, x))?;
                    }
                    q.end()
                }
                _ => unreachable!(),
            },
            (t, d) => unreachable!("{t:?} {d:?}"),
        }
    }
}

// ------------------------------------------------------------------ deserializing, as derived code does

impl<'de> DeserializeSeed<'de> for &DT {
    type Value = DD;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<DD, D::Error> {
        Ok(match self {
            DT::Bool => DD::Bool(bool::deserialize(d)?),
            DT::Int(p) => match p {
                P::U8 => DD::U(u8::deserialize(d)? as u128),
                P::U16 => DD::U(u16::deserialize(d)? as u128),
                P::U32 => DD::U(u32::deserialize(d)? as u128),
                P::U64 => DD::U(u64::deserialize(d)? as u128),
                P::U128 => DD::U(u128::deserialize(d)?),
                P::I8 => DD::I(i8::deserialize(d)? as i128),
                P::I16 => DD::I(i16::deserialize(d)? as i128),
                P::I32 => DD::I(i32::deserialize(d)? as i128),
                P::I64 => DD::I(i64::deserialize(d)? as i128),
                P::I128 => DD::I(i128::deserialize(d)?),
                _ => unreachable!(),
            },
            DT::Char => DD::Char(char::deserialize(d)?),
            DT::Str => DD::Str(String::deserialize(d)?),
            DT::Bytes => DD::Bytes(d.deserialize_byte_buf(BytesV)?),
            DT::Any => DD::Any(V::deserialize(d)?),
            DT::Opt(t) => d.deserialize_option(OptV(t))?,
            DT::Unit => {
                <()>::deserialize(d)?;
                DD::Unit
            }
            DT::UnitStruct => d.deserialize_unit_struct("U", UnitV)?,
            DT::Newtype(t) => d.deserialize_newtype_struct("N", NewV(t))?,
            DT::Seq(t) => d.deserialize_seq(SeqV(t))?,
            DT::Tuple(ts) => d.deserialize_tuple(ts.len(), TupV(ts))?,
            DT::TupleStruct(ts) => d.deserialize_tuple_struct("T", ts.len(), TupV(ts))?,
            DT::Map(t) => d.deserialize_map(MapV(t, false))?,
            DT::CharMap(t) => d.deserialize_map(MapV(t, true))?,
            DT::Struct(n, ts) => d.deserialize_struct("S", n, StructV(n, ts))?,
            DT::Enum(n, vs) => d.deserialize_enum("E", n, EnumV(n, vs))?,
        })
    }
}

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Vec<u8>, E> {
        Ok(b.to_vec())
    }
    fn visit_byte_buf<E: de::Error>(self, b: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(b)
    }
}

struct OptV<'a>(&'a DT);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = DD;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E: de::Error>(self) -> Result<DD, E> {
        Ok(DD::None)
    }
    fn visit_none<E: de::Error>(self) -> Result<DD, E> {
        Ok(DD::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<DD, D::Error> {
        Ok(DD::Some(Box::new(self.0.deserialize(d)?)))
    }
}

struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = DD;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct U")
    }
    fn visit_unit<E: de::Error>(self) -> Result<DD, E> {
        Ok(DD::Unit)
    }
}

struct NewV<'a>(&'a DT);
impl<'de> Visitor<'de> for NewV<'_> {
    type Value = DD;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple struct N")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<DD, D::Error> {
        Ok(DD::Wrap(Box::new(self.0.deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<DD, A::Error> {
        match a.next_element_seed(self.0)? {
            Some(x) => Ok(DD::Wrap(Box::new(x))),
            None => Err(de::Error::invalid_length(0, &"tuple struct N with 1 element")),
        }
    }
}

struct SeqV<'a>(&'a DT);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = DD;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<DD, A::Error> {
        let mut out = vec![];
        while let Some(x) = a.next_element_seed(self.0)? {
            out.push(x);
        }
        Ok(DD::List(out))
    }
}

struct TupV<'a>(&'a [DT]);
impl<'de> Visitor<'de> for TupV<'_> {
    type Value = DD;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of size {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<DD, A::Error> {
        let mut out = vec![];
        for t in self.0 {
            match a.next_element_seed(t)? {
                Some(x) => out.push(x),
                None => return Err(de::Error::invalid_length(out.len(), &self)),
            }
        }
        Ok(DD::List(out))
    }
}

struct MapV<'a>(&'a DT, bool);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = DD;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<DD, A::Error> {
        let mut out: Vec<(String, DD)> = vec![];
        loop {
            let k = if self.1 { a.next_key::<char>()?.map(|c| c.to_string()) } else { a.next_key::<String>()? };
            let Some(k) = k else { break };
            let v = a.next_value_seed(self.0)?;
            out.push((k, v));
        }
        Ok(DD::Map(out))
    }
}

/// A field or variant name, as the derived identifier visitors see it.
struct Ident(Names, bool);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.1 { "variant identifier" } else { "field identifier" })
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Self::Value, E> {
        if (n as usize) < self.0.len() {
            Ok(Some(n as usize))
        } else if self.1 {
            Err(E::invalid_value(de::Unexpected::Unsigned(n), &self))
        } else {
            Ok(None)
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
        match self.0.iter().position(|n| *n == s) {
            None if self.1 => Err(E::unknown_variant(s, self.0)),
            k => Ok(k),
        }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Self::Value, E> {
        match self.0.iter().position(|n| n.as_bytes() == s) {
            None if self.1 => Err(E::unknown_variant(&String::from_utf8_lossy(s), self.0)),
            k => Ok(k),
        }
    }
}

struct StructV<'a>(Names, &'a [DT]);
impl<'de> Visitor<'de> for StructV<'_> {
    type Value = DD;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct S")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<DD, A::Error> {
        TupV(self.1).visit_seq(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<DD, A::Error> {
        let mut got: Vec<Option<DD>> = vec![None; self.1.len()];
        while let Some(k) = a.next_key_seed(Ident(self.0, false))? {
            match k {
                Some(k) => {
                    if got[k].is_some() {
                        return Err(de::Error::duplicate_field(self.0[k]));
                    }
                    got[k] = Some(a.next_value_seed(&self.1[k])?);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for (k, x) in got.into_iter().enumerate() {
            match x {
                Some(x) => out.push(x),
                None if matches!(self.1[k], DT::Opt(_)) => out.push(DD::None),
                None => return Err(de::Error::missing_field(self.0[k])),
            }
        }
        Ok(DD::List(out))
    }
}

struct EnumV<'a>(Names, &'a [VT]);
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = DD;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum E")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<DD, A::Error> {
        let (k, v) = a.variant_seed(Ident(self.0, true))?;
        let k = k.expect("variant");
        let x = match &self.1[k] {
            VT::Unit => {
                v.unit_variant()?;
                DD::Unit
            }
            VT::Newtype(t) => v.newtype_variant_seed(&**t)?,
            VT::Tuple(ts) => v.tuple_variant(ts.len(), TupV(ts))?,
            VT::Struct(n, ts) => v.struct_variant(n, StructV(n, ts))?,
        };
        Ok(DD::Var(k, Box::new(x)))
    }
}

// ------------------------------------------------------------------ the values and bytes they stand for

pub fn value_of(t: &DT, d: &DD) -> V {
    let list = |ts: &[DT], xs: &[DD]| ts.iter().zip(xs).map(|(t, x)| value_of(t, x)).collect::<Vec<_>>();
    let names = |n: Names, xs: Vec<V>| n.iter().copied().zip(xs).collect::<Vec<(&str, V)>>();
    match (t, d) {
        (_, DD::Bool(b)) => w::b(*b),
        (_, DD::U(n)) => w::u(*n),
        (_, DD::I(n)) => w::i(*n),
        (_, DD::Char(c)) => w::ch(*c),
        (_, DD::Any(v)) => v.clone(),
        (_, DD::Str(x)) => w::s(x),
        (_, DD::Bytes(b)) => w::un(b.iter().map(|x| w::u(*x as u128)).collect()),
        (_, DD::None) => w::var("None", w::cu(vec![])),
        (DT::Opt(t), DD::Some(x)) => w::var("Some", w::cu(vec![value_of(t, x)])),
        (_, DD::Unit) => w::un(vec![]),
        (DT::Newtype(t), DD::Wrap(x)) => w::un(vec![value_of(t, x)]),
        (DT::Seq(t), DD::List(xs)) => w::un(xs.iter().map(|x| value_of(t, x)).collect()),
        (DT::Tuple(ts) | DT::TupleStruct(ts), DD::List(xs)) => w::un(list(ts, xs)),
        (DT::Map(t) | DT::CharMap(t), DD::Map(xs)) => w::nm(xs.iter().map(|(k, x)| (&**k, value_of(t, x))).collect()),
        (DT::Struct(n, ts), DD::List(xs)) => w::nm(names(n, list(ts, xs))),
        (DT::Enum(n, vs), DD::Var(k, x)) => w::var(
            n[*k],
            match (&vs[*k], &**x) {
                (VT::Unit, _) => w::cu(vec![]),
                (VT::Newtype(t), x) => w::cu(vec![value_of(t, x)]),
                (VT::Tuple(ts), DD::List(xs)) => w::cu(list(ts, xs)),
                (VT::Struct(m, ts), DD::List(xs)) => w::cn(names(m, list(ts, xs))),
                _ => unreachable!(),
            },
        ),
        (t, d) => unreachable!("{t:?} {d:?}"),
    }
}

/// The SCALE encoding of the data, written by the rules of the format.
pub fn scale_of(t: &DT, d: &DD, out: &mut Vec<u8>) {
    let list = |ts: &[DT], xs: &[DD], out: &mut Vec<u8>| ts.iter().zip(xs).for_each(|(t, x)| scale_of(t, x, out));
    match (t, d) {
        (_, DD::Bool(b)) => out.push(*b as u8),
        (DT::Int(p), DD::U(n)) => out.extend(&n.to_le_bytes()[..width(*p)]),
        (DT::Int(p), DD::I(n)) => out.extend(&n.to_le_bytes()[..width(*p)]),
        (_, DD::Char(c)) => out.extend((*c as u32).to_le_bytes()),
        (_, DD::Str(x)) => x.encode_to(out),
        (_, DD::Bytes(b)) => b.encode_to(out),
        (_, DD::None) => out.push(0),
        (DT::Opt(t), DD::Some(x)) => {
            out.push(1);
            scale_of(t, x, out)
        }
        (_, DD::Unit) => {}
        (DT::Newtype(t), DD::Wrap(x)) => scale_of(t, x, out),
        (DT::Seq(t), DD::List(xs)) => {
            Compact(xs.len() as u32).encode_to(out);
            xs.iter().for_each(|x| scale_of(t, x, out));
        }
        (DT::Tuple(ts) | DT::TupleStruct(ts) | DT::Struct(_, ts), DD::List(xs)) => list(ts, xs, out),
        (DT::Enum(_, vs), DD::Var(k, x)) => {
            out.push(*k as u8);
            match (&vs[*k], &**x) {
                (VT::Unit, _) => {}
                (VT::Newtype(t), x) => scale_of(t, x, out),
                (VT::Tuple(ts) | VT::Struct(_, ts), DD::List(xs)) => list(ts, xs, out),
                _ => unreachable!(),
            }
        }
        (t, d) => unreachable!("{t:?} {d:?}"),
    }
}
fn width(p: P) -> usize {
    crate::tys::int_bits(p).unwrap().0 as usize / 8
}

/// The SCALE type description of the Rust type (maps have none with names).
pub fn describe(t: &DT, r: &mut Reg) -> Option<Id> {
    let fields = |n: Names, ts: &[DT], r: &mut Reg| -> Option<Vec<F>> { n.iter().zip(ts).map(|(n, t)| Some(crate::tys::named(n, describe(t, r)?))).collect() };
    let plain = |ts: &[DT], r: &mut Reg| -> Option<Vec<Id>> { ts.iter().map(|t| describe(t, r)).collect() };
    Some(match t {
        DT::Bool => r.p(P::Bool),
        DT::Int(p) => r.p(*p),
        DT::Char => r.p(P::Char),
        DT::Str => r.p(P::Str),
        DT::Bytes => {
            let i = r.p(P::U8);
            r.seq(i)
        }
        DT::Opt(t) => {
            let i = describe(t, r)?;
            r.opt(i)
        }
        DT::Unit => r.tup(&[]),
        DT::UnitStruct => r.ust(&[]),
        DT::Newtype(t) => {
            let i = describe(t, r)?;
            r.ust(&[i])
        }
        DT::Seq(t) => {
            let i = describe(t, r)?;
            r.seq(i)
        }
        DT::Tuple(ts) => {
            let ids = plain(ts, r)?;
            r.tup(&ids)
        }
        DT::TupleStruct(ts) => {
            let ids = plain(ts, r)?;
            r.ust(&ids)
        }
        DT::Map(_) | DT::CharMap(_) | DT::Any => return None,
        // an index takes one byte
        DT::Enum(n, _) if n.len() > 256 => return None,
        DT::Struct(n, ts) => {
            let fs = fields(n, ts, r)?;
            r.add(T::Struct(fs))
        }
        DT::Enum(n, vs) => {
            let mut out = vec![];
            for (k, (n, v)) in n.iter().zip(vs).enumerate() {
                let fs = match v {
                    VT::Unit => vec![],
                    VT::Newtype(t) => vec![crate::tys::un(describe(t, r)?)],
                    VT::Tuple(ts) => plain(ts, r)?.into_iter().map(crate::tys::un).collect(),
                    VT::Struct(m, ts) => fields(m, ts, r)?,
                };
                out.push((n.to_string(), k as u8, fs));
            }
            r.add(T::Enum(out))
        }
    })
}

// ------------------------------------------------------------------ enumeration

pub fn leaves() -> Vec<DT> {
    let mut v = vec![DT::Bool];
    v.extend(crate::tys::UINTS.iter().chain(&crate::tys::IINTS).map(|p| DT::Int(*p)));
    v.extend([DT::Char, DT::Str, DT::Bytes, DT::Unit, DT::UnitStruct]);
    v
}
pub fn few_leaves() -> Vec<DT> {
    vec![DT::Int(P::U8), DT::Str, DT::Unit, DT::Int(P::I64), DT::Char, DT::Bool]
}

/// Every way to build a type around `x`.
pub fn apply(x: &DT) -> Vec<DT> {
    let b = || Box::new(x.clone());
    let c = || x.clone();
    vec![
        DT::Newtype(b()),
        DT::Opt(b()),
        DT::Seq(b()),
        DT::Tuple(vec![c()]),
        DT::Enum(&["A", "B", "C", "D"], vec![VT::Unit, VT::Newtype(b()), VT::Tuple(vec![c(), DT::Int(P::U8)]), VT::Struct(&["p", "q"], vec![DT::Bool, c()])]),
        DT::Struct(&["a"], vec![c()]),
        DT::Struct(&["a", "b"], vec![DT::Int(P::U16), c()]),
        DT::Map(b()),
        DT::Tuple(vec![DT::Bool, c()]),
        DT::TupleStruct(vec![c(), DT::Int(P::I8)]),
        DT::Enum(&["None", "Some", "E"], vec![VT::Unit, VT::Newtype(b()), VT::Struct(&["z"], vec![c()])]),
        DT::Struct(&["name", "values", "type"], vec![c(), c(), DT::Str]),
        DT::CharMap(b()),
        DT::Enum(&["T0", "S0", "T1"], vec![VT::Tuple(vec![]), VT::Struct(&[], vec![]), VT::Tuple(vec![c(), c(), c()])]),
        DT::TupleStruct(vec![]),
        DT::Struct(&[], vec![]),
        DT::Tuple(vec![c(), c(), c()]),
    ]
}

pub fn domain(t: &DT, rich: bool, cap: usize) -> Vec<DD> {
    let lists = |ts: &[DT], cap: usize| -> Vec<DD> {
        let doms: Vec<Vec<DD>> = ts.iter().map(|t| domain(t, false, 4)).collect();
        crate::tys::cart(&doms, cap).into_iter().map(DD::List).collect()
    };
    let mut out: Vec<DD> = match t {
        DT::Bool => vec![DD::Bool(true), DD::Bool(false)],
        DT::Int(p) => {
            let (bits, signed) = crate::tys::int_bits(*p).unwrap();
            if signed {
                let hi = (u128::MAX >> (129 - bits)) as i128;
                let v = if rich { vec![-1, 0, 1, 7, 100, hi, -hi, -hi - 1, hi / 2 + 1, -(hi / 2) - 1] } else { vec![-1, hi, -hi - 1] };
                v.into_iter().map(DD::I).collect()
            } else {
                let hi = u128::MAX >> (128 - bits);
                let v = if rich { vec![5, 0, 1, 255, hi, hi / 2, hi / 2 + 1, hi - 1] } else { vec![5, hi, 0] };
                v.into_iter().map(DD::U).collect()
            }
        }
        DT::Char => (if rich { vec!['a', '\0', 'é', '🦀', '"', '\u{10ffff}', '\u{d7ff}'] } else { vec!['a', '🦀'] }).into_iter().map(DD::Char).collect(),
        DT::Str => (if rich { vec!["a", "", "é🦀", "a b\"", "__bitvec__values__", "None", "name"] } else { vec!["a", ""] }).into_iter().map(|s| DD::Str(s.into())).collect(),
        DT::Bytes => (if rich { vec![vec![1u8], vec![], vec![0, 255, 128], vec![7; 32]] } else { vec![vec![1], vec![]] }).into_iter().map(DD::Bytes).collect(),
        DT::Unit | DT::UnitStruct => vec![DD::Unit],
        DT::Any => w::few().into_iter().chain([w::un(vec![w::u(1)]), w::nm(vec![("a", w::u(1))]), w::var("Some", w::cu(vec![w::u(1)]))]).map(DD::Any).collect(),
        DT::Opt(t) => {
            let mut v = vec![DD::None];
            v.extend(domain(t, rich, cap).into_iter().map(|x| DD::Some(Box::new(x))));
            v
        }
        DT::Newtype(t) => domain(t, rich, cap).into_iter().map(|x| DD::Wrap(Box::new(x))).collect(),
        DT::Seq(t) => {
            let k = domain(t, false, 3);
            let mut v = vec![DD::List(vec![])];
            v.extend(k.iter().map(|x| DD::List(vec![x.clone()])));
            for n in 2..=3 {
                v.extend(crate::tys::cart(&vec![k.clone(); n], 9).into_iter().map(DD::List));
            }
            v
        }
        DT::Tuple(ts) | DT::TupleStruct(ts) | DT::Struct(_, ts) => lists(ts, cap),
        DT::Map(x) | DT::CharMap(x) => {
            let k = domain(x, false, 3);
            let names = ["k", "é", "z"];
            let mut v = vec![DD::Map(vec![])];
            for n in 1..=3 {
                v.extend(crate::tys::cart(&vec![k.clone(); n], 6).into_iter().map(|xs| DD::Map(xs.into_iter().enumerate().map(|(j, x)| (names[j].to_string(), x)).collect())));
            }
            if let DT::Map(_) = t {
                // names that mean something elsewhere
                for odd in ["", "__bitvec__values__", "name", "a b"] {
                    v.push(DD::Map(vec![(odd.to_string(), k[0].clone())]));
                }
            }
            v
        }
        DT::Enum(_, vs) => {
            let mut v = vec![];
            for (k, x) in vs.iter().enumerate() {
                match x {
                    VT::Unit => v.push(DD::Var(k, Box::new(DD::Unit))),
                    VT::Newtype(t) => v.extend(domain(t, rich, cap).into_iter().map(|x| DD::Var(k, Box::new(x)))),
                    VT::Tuple(ts) | VT::Struct(_, ts) => v.extend(lists(ts, cap / 2).into_iter().map(|x| DD::Var(k, Box::new(x)))),
                }
            }
            v
        }
    };
    if out.len() > cap {
        // keep the first ones and an even spread of the rest
        let n = out.len();
        let keep: std::collections::BTreeSet<usize> = (0..cap / 2).chain((0..cap - cap / 2).map(|i| n - 1 - i * (n - cap / 2) / (cap - cap / 2))).collect();
        let mut k = 0;
        out.retain(|_| {
            k += 1;
            keep.contains(&(k - 1))
        });
    }
    out
}
