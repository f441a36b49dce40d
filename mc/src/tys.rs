//! A small type universe of our own, its translation to a scale-info registry, and the reference
//! SCALE codec that plays the role of the model: a direct, boring transcription of the SCALE
//! specification on (type, bytes). Only the leaf integers and compact integers are delegated to
//! parity-scale-codec.
use codec::{Compact, Decode, Encode};
use scale_info::form::PortableForm;
use scale_info::{Field, Path, PortableRegistry, PortableType, Type, TypeDef, TypeDefArray, TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefPrimitive, TypeDefSequence, TypeDefTuple, TypeDefVariant, Variant as TVariant};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Bool,
    Char,
    Str,
    U8,
    U16,
    U32,
    U64,
    U128,
    U256,
    I8,
    I16,
    I32,
    I64,
    I128,
    I256,
}
pub const UINTS: [P; 5] = [P::U8, P::U16, P::U32, P::U64, P::U128];
pub const IINTS: [P; 5] = [P::I8, P::I16, P::I32, P::I64, P::I128];
pub const ALL_PRIMS: [P; 15] = [P::Bool, P::Char, P::Str, P::U8, P::U16, P::U32, P::U64, P::U128, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Store {
    U8,
    U16,
    U32,
    U64,
}
pub const STORES: [Store; 4] = [Store::U8, Store::U16, Store::U32, Store::U64];
impl Store {
    pub fn bits(self) -> usize {
        match self {
            Store::U8 => 8,
            Store::U16 => 16,
            Store::U32 => 32,
            Store::U64 => 64,
        }
    }
}

pub type Id = u32;
pub type F = (Option<String>, Id);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Prim(P),
    Compact(Id),
    Struct(Vec<F>),
    Enum(Vec<(String, u8, Vec<F>)>),
    Seq(Id),
    Array(u32, Id),
    Tuple(Vec<Id>),
    Bits(Store, bool), // msb0?
}

#[derive(Clone, Default)]
pub struct Reg {
    pub defs: Vec<T>,
    intern: HashMap<T, Id>,
}

pub fn named(n: &str, id: Id) -> F {
    (Some(n.to_string()), id)
}
pub fn un(id: Id) -> F {
    (None, id)
}

impl Reg {
    pub fn new() -> Reg {
        // Occupy id 0, 1 with types that are never used, so that a "default" id never looks right.
        let mut r = Reg::default();
        r.defs.push(T::Tuple(vec![0]));
        r.defs.push(T::Tuple(vec![0]));
        r
    }
    pub fn add(&mut self, t: T) -> Id {
        if let Some(i) = self.intern.get(&t) {
            return *i;
        }
        let id = self.defs.len() as Id;
        self.defs.push(t.clone());
        self.intern.insert(t, id);
        id
    }
    /// A new id for a definition that may already have one.
    pub fn fresh(&mut self, t: T) -> Id {
        let id = self.defs.len() as Id;
        self.defs.push(t);
        id
    }
    /// Reserve an id for a recursive type, to be set later.
    pub fn reserve(&mut self) -> Id {
        let id = self.defs.len() as Id;
        self.defs.push(T::Tuple(vec![]));
        id
    }
    pub fn set(&mut self, id: Id, t: T) {
        self.defs[id as usize] = t;
    }
    pub fn p(&mut self, p: P) -> Id {
        self.add(T::Prim(p))
    }
    pub fn tup(&mut self, v: &[Id]) -> Id {
        self.add(T::Tuple(v.to_vec()))
    }
    pub fn seq(&mut self, i: Id) -> Id {
        self.add(T::Seq(i))
    }
    pub fn arr(&mut self, n: u32, i: Id) -> Id {
        self.add(T::Array(n, i))
    }
    pub fn wrap(&mut self, i: Id) -> Id {
        self.add(T::Struct(vec![un(i)]))
    }
    pub fn nwrap(&mut self, n: &str, i: Id) -> Id {
        self.add(T::Struct(vec![named(n, i)]))
    }
    pub fn st(&mut self, f: &[(&str, Id)]) -> Id {
        self.add(T::Struct(f.iter().map(|(n, i)| named(n, *i)).collect()))
    }
    pub fn ust(&mut self, f: &[Id]) -> Id {
        self.add(T::Struct(f.iter().map(|i| un(*i)).collect()))
    }
    pub fn en(&mut self, v: &[(&str, u8, Vec<F>)]) -> Id {
        self.add(T::Enum(v.iter().map(|(n, i, f)| (n.to_string(), *i, f.clone())).collect()))
    }
    pub fn opt(&mut self, i: Id) -> Id {
        self.en(&[("None", 0, vec![]), ("Some", 1, vec![un(i)])])
    }
    pub fn get(&self, id: Id) -> &T {
        // A type that does not exist has no values, like an enum without variants.
        static NOTHING: T = T::Enum(vec![]);
        self.defs.get(id as usize).unwrap_or(&NOTHING)
    }

    pub fn portable(&self) -> PortableRegistry {
        let n = self.defs.len() as u32;
        let mut types = vec![];
        let fields = |fs: &Vec<F>| -> Vec<Field<PortableForm>> { fs.iter().map(|(nm, id)| Field::<PortableForm>::new(nm.clone(), (*id).into(), None, vec![])).collect() };
        let path = |segs: &[&str]| -> Path<PortableForm> {
            let mut p = Path::<PortableForm>::default();
            p.segments = segs.iter().map(|s| s.to_string()).collect();
            p
        };
        for (i, d) in self.defs.iter().enumerate() {
            let (p, td): (Path<PortableForm>, TypeDef<PortableForm>) = match d {
                T::Prim(p) => (
                    path(&[]),
                    TypeDef::Primitive(match p {
                        P::Bool => TypeDefPrimitive::Bool,
                        P::Char => TypeDefPrimitive::Char,
                        P::Str => TypeDefPrimitive::Str,
                        P::U8 => TypeDefPrimitive::U8,
                        P::U16 => TypeDefPrimitive::U16,
                        P::U32 => TypeDefPrimitive::U32,
                        P::U64 => TypeDefPrimitive::U64,
                        P::U128 => TypeDefPrimitive::U128,
                        P::U256 => TypeDefPrimitive::U256,
                        P::I8 => TypeDefPrimitive::I8,
                        P::I16 => TypeDefPrimitive::I16,
                        P::I32 => TypeDefPrimitive::I32,
                        P::I64 => TypeDefPrimitive::I64,
                        P::I128 => TypeDefPrimitive::I128,
                        P::I256 => TypeDefPrimitive::I256,
                    }),
                ),
                T::Compact(i) => (path(&[]), TypeDefCompact::new((*i).into()).into()),
                T::Struct(f) => {
                    let nm = format!("S{i}");
                    let mut pp = path(&["m"]);
                    pp.segments.push(nm);
                    (pp, TypeDefComposite::new(fields(f)).into())
                }
                T::Enum(v) => {
                    let nm = format!("E{i}");
                    let mut pp = path(&["m"]);
                    pp.segments.push(nm);
                    (pp, TypeDefVariant::new(v.iter().map(|(n, ix, f)| TVariant::<PortableForm>::new(n.clone(), fields(f), *ix, vec![])).collect::<Vec<_>>()).into())
                }
                T::Seq(i) => (path(&[]), TypeDefSequence::new((*i).into()).into()),
                T::Array(n, i) => (path(&[]), TypeDefArray::new(*n, (*i).into()).into()),
                T::Tuple(v) => (path(&[]), TypeDefTuple::new_portable(v.iter().map(|i| (*i).into())).into()),
                T::Bits(s, msb) => {
                    let st = n + match s {
                        Store::U8 => 0,
                        Store::U16 => 1,
                        Store::U32 => 2,
                        Store::U64 => 3,
                    };
                    let or = n + if *msb { 5 } else { 4 };
                    (path(&[]), TypeDefBitSequence::new_portable(st.into(), or.into()).into())
                }
            };
            types.push(PortableType::new(i as u32, Type::new(p, vec![], td, vec![])));
        }
        let mut push = |p: Path<PortableForm>, td: TypeDef<PortableForm>| {
            let id = types.len() as u32;
            types.push(PortableType::new(id, Type::new(p, vec![], td, vec![])));
        };
        push(path(&[]), TypeDef::Primitive(TypeDefPrimitive::U8));
        push(path(&[]), TypeDef::Primitive(TypeDefPrimitive::U16));
        push(path(&[]), TypeDef::Primitive(TypeDefPrimitive::U32));
        push(path(&[]), TypeDef::Primitive(TypeDefPrimitive::U64));
        push(path(&["bitvec", "order", "Lsb0"]), TypeDefComposite::new(vec![]).into());
        push(path(&["bitvec", "order", "Msb0"]), TypeDefComposite::new(vec![]).into());
        PortableRegistry { types }
    }

    pub fn show(&self, id: Id) -> String {
        self.show_d(id, 6)
    }
    fn show_d(&self, id: Id, d: u32) -> String {
        if d == 0 {
            return format!("#{id}");
        }
        let Some(t) = self.defs.get(id as usize) else { return format!("#{id}?") };
        let fs = |f: &Vec<F>| -> String { f.iter().map(|(n, i)| n.as_ref().map(|n| format!("{n}:")).unwrap_or_default() + &self.show_d(*i, d - 1)).collect::<Vec<_>>().join(",") };
        match t {
            T::Prim(p) => format!("{p:?}").to_lowercase(),
            T::Compact(i) => format!("Compact<{}>", self.show_d(*i, d - 1)),
            T::Struct(f) => format!("struct{{{}}}", fs(f)),
            T::Enum(v) => format!("enum{{{}}}", v.iter().map(|(n, i, f)| format!("{n}={i}({})", fs(f))).collect::<Vec<_>>().join("|")),
            T::Seq(i) => format!("Vec<{}>", self.show_d(*i, d - 1)),
            T::Array(n, i) => format!("[{};{n}]", self.show_d(*i, d - 1)),
            T::Tuple(v) => format!("({})", v.iter().map(|i| self.show_d(*i, d - 1) + ",").collect::<Vec<_>>().join("")),
            T::Bits(s, m) => format!("Bits<{s:?},{}>", if *m { "Msb0" } else { "Lsb0" }),
        }
    }

    /// Can a value of this type take no bytes at all?
    pub fn zero_sized(&self, id: Id) -> bool {
        let Some(t) = self.defs.get(id as usize) else { return false };
        match t {
            T::Struct(f) => f.iter().all(|f| self.zero_sized(f.1)),
            T::Tuple(f) => f.iter().all(|f| self.zero_sized(*f)),
            T::Array(n, i) => *n == 0 || self.zero_sized(*i),
            _ => false,
        }
    }
    /// 256 bit integers can (by a limitation of the scale-decode dependency) only be read when they
    /// are the last thing in the input.
    pub fn has_256(&self, id: Id) -> bool {
        fn go(r: &Reg, id: Id, d: u32) -> bool {
            if d == 0 {
                return false;
            }
            match r.get(id) {
                T::Prim(p) => matches!(p, P::U256 | P::I256),
                T::Compact(i) | T::Seq(i) | T::Array(_, i) => go(r, *i, d - 1),
                T::Struct(f) => f.iter().any(|f| go(r, f.1, d - 1)),
                T::Tuple(f) => f.iter().any(|f| go(r, *f, d - 1)),
                T::Enum(v) => v.iter().any(|v| v.2.iter().any(|f| go(r, f.1, d - 1))),
                T::Bits(..) => false,
            }
        }
        go(self, id, 8)
    }
}

// ---------------------------------------------------------------- reference decoder

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    /// A complete value, and how many bytes it took.
    Done(Value<u32>, usize),
    /// The bytes are a proper prefix of some encoding (as far as this reader can tell).
    More,
    /// No continuation can make this valid.
    Bad,
    /// Outside the model: a sequence of zero-sized things whose length alone is huge.
    Skip,
}

thread_local! {
    static MET: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn v(d: ValueDef<u32>, c: u32) -> Value<u32> {
    Value { value: d, context: c }
}
pub fn pv(p: Primitive, c: u32) -> Value<u32> {
    v(ValueDef::Primitive(p), c)
}

fn compact_need(b: &[u8]) -> Option<usize> {
    let f = *b.first()?;
    Some(match f & 3 {
        0 => 1,
        1 => 2,
        2 => 4,
        _ => 5 + (f >> 2) as usize,
    })
}
/// A compact integer at the front of `b`: Ok(Some((n, used))), Ok(None) = need more, Err = invalid.
fn compact(b: &[u8], max_bits: u32) -> Result<Option<(u128, usize)>, ()> {
    let Some(need) = compact_need(b) else { return Ok(None) };
    // Big-integer mode longer than the target type is invalid whatever follows.
    let maxbytes = match max_bits {
        8 => 2,
        16 | 32 => 5,
        64 => 9,
        _ => 17,
    };
    if need > maxbytes {
        return Err(());
    }
    if b.len() < need {
        return Ok(None);
    }
    let s = &mut &b[..need];
    let r = match max_bits {
        8 => Compact::<u8>::decode(s).map(|c| c.0 as u128),
        16 => Compact::<u16>::decode(s).map(|c| c.0 as u128),
        32 => Compact::<u32>::decode(s).map(|c| c.0 as u128),
        64 => Compact::<u64>::decode(s).map(|c| c.0 as u128),
        _ => Compact::<u128>::decode(s).map(|c| c.0),
    };
    match r {
        Ok(n) => Ok(Some((n, need - s.len()))),
        Err(_) => Err(()),
    }
}

pub fn seq_len(b: &[u8]) -> Option<(u64, usize)> {
    compact(b, 64).ok().flatten().map(|(n, u)| (n as u64, u))
}

fn le(b: &[u8]) -> u128 {
    let mut a = [0u8; 16];
    a[..b.len()].copy_from_slice(b);
    u128::from_le_bytes(a)
}

pub fn int_bits(p: P) -> Option<(u32, bool)> {
    Some(match p {
        P::U8 => (8, false),
        P::U16 => (16, false),
        P::U32 => (32, false),
        P::U64 => (64, false),
        P::U128 => (128, false),
        P::I8 => (8, true),
        P::I16 => (16, true),
        P::I32 => (32, true),
        P::I64 => (64, true),
        P::I128 => (128, true),
        _ => return None,
    })
}

impl Reg {
    /// Number of value nodes the reference decoder completes, also when the whole fails in the end.
    pub fn nodes_met(&self, id: Id, b: &[u8]) -> u64 {
        MET.with(|m| m.set(0));
        let _ = self.decode(id, b);
        MET.with(|m| m.get())
    }
    pub fn decode(&self, id: Id, b: &[u8]) -> Dec {
        self.dec(id, b, false)
    }
    fn dec_many(&self, ids: &mut dyn Iterator<Item = Id>, b: &[u8], cm: bool) -> Result<(Vec<Value<u32>>, usize), Dec> {
        let mut out = vec![];
        let mut at = 0;
        for id in ids {
            match self.dec(id, &b[at..], cm) {
                Dec::Done(x, n) => {
                    MET.with(|m| m.set(m.get() + 1));
                    out.push(x);
                    at += n;
                }
                d => return Err(d),
            }
        }
        Ok((out, at))
    }
    pub fn dec_fields(&self, fs: &[F], b: &[u8], cm: bool) -> Result<(Composite<u32>, usize), Dec> {
        let (vals, n) = self.dec_many(&mut fs.iter().map(|f| f.1), b, cm)?;
        // Named only if there are fields and every one of them has a name.
        let c = if !fs.is_empty() && fs.iter().all(|f| f.0.is_some()) {
            Composite::Named(fs.iter().map(|f| f.0.clone().unwrap()).zip(vals).collect())
        } else {
            Composite::Unnamed(vals)
        };
        Ok((c, n))
    }
    pub fn dec(&self, id: Id, b: &[u8], cm: bool) -> Dec {
        let Some(t) = self.defs.get(id as usize) else { return Dec::Bad };
        match t {
            T::Prim(p) => self.dec_prim(*p, id, b, cm),
            T::Compact(i) => self.dec(*i, b, true),
            T::Struct(fs) => {
                if cm && fs.len() != 1 {
                    return Dec::Bad;
                }
                match self.dec_fields(fs, b, cm) {
                    Ok((c, n)) => Dec::Done(v(ValueDef::Composite(c), id), n),
                    Err(d) => d,
                }
            }
            T::Tuple(is) => {
                if cm && is.len() != 1 {
                    return Dec::Bad;
                }
                match self.dec_many(&mut is.iter().copied(), b, cm) {
                    Ok((c, n)) => Dec::Done(v(ValueDef::Composite(Composite::Unnamed(c)), id), n),
                    Err(d) => d,
                }
            }
            _ if cm => Dec::Bad,
            T::Enum(vs) => {
                let Some(ix) = b.first() else { return Dec::More };
                let Some((name, _, fs)) = vs.iter().find(|x| x.1 == *ix) else { return Dec::Bad };
                match self.dec_fields(fs, &b[1..], false) {
                    Ok((c, n)) => Dec::Done(v(ValueDef::Variant(Variant { name: name.clone(), values: c }), id), n + 1),
                    Err(d) => d,
                }
            }
            T::Seq(i) => match compact(b, 64) {
                Err(()) => Dec::Bad,
                Ok(None) => Dec::More,
                Ok(Some((n, used))) => {
                    if self.zero_sized(*i) && n > 70_000 {
                        return Dec::Skip;
                    }
                    let mut it = (0..n).map(|_| *i);
                    match self.dec_many(&mut it, &b[used..], false) {
                        Ok((c, m)) => Dec::Done(v(ValueDef::Composite(Composite::Unnamed(c)), id), used + m),
                        Err(d) => d,
                    }
                }
            },
            T::Array(n, i) => {
                if self.zero_sized(*i) && *n > 70_000 {
                    return Dec::Skip;
                }
                let mut it = (0..*n).map(|_| *i);
                match self.dec_many(&mut it, b, false) {
                    Ok((c, m)) => Dec::Done(v(ValueDef::Composite(Composite::Unnamed(c)), id), m),
                    Err(d) => d,
                }
            }
            T::Bits(s, msb) => match compact(b, 32) {
                Err(()) => Dec::Bad,
                Ok(None) => Dec::More,
                Ok(Some((n, used))) => {
                    // `n` bits, stored in ceil(n / word) little endian words.
                    let w = s.bits();
                    let n = n as usize;
                    let words = n.div_ceil(w);
                    let bytes = words * w / 8;
                    if b.len() - used < bytes {
                        return Dec::More;
                    }
                    let mut bits = BitSequence::new();
                    for k in 0..n {
                        let word = le(&b[used + (k / w) * (w / 8)..used + (k / w + 1) * (w / 8)]);
                        let pos = k % w;
                        let pos = if *msb { w - 1 - pos } else { pos };
                        bits.push(word >> pos & 1 == 1);
                    }
                    Dec::Done(v(ValueDef::BitSequence(bits), id), used + bytes)
                }
            },
        }
    }
    fn dec_prim(&self, p: P, id: Id, b: &[u8], cm: bool) -> Dec {
        if cm {
            let Some((bits, false)) = int_bits(p) else { return Dec::Bad };
            return match compact(b, bits) {
                Err(()) => Dec::Bad,
                Ok(None) => Dec::More,
                Ok(Some((n, used))) => Dec::Done(pv(Primitive::U128(n), id), used),
            };
        }
        if let Some((bits, signed)) = int_bits(p) {
            let n = bits as usize / 8;
            if b.len() < n {
                return Dec::More;
            }
            let u = le(&b[..n]);
            let pr = if signed {
                let sh = 128 - bits;
                Primitive::I128(((u << sh) as i128) >> sh)
            } else {
                Primitive::U128(u)
            };
            return Dec::Done(pv(pr, id), n);
        }
        match p {
            P::Bool => match b.first() {
                None => Dec::More,
                Some(0) => Dec::Done(pv(Primitive::Bool(false), id), 1),
                Some(1) => Dec::Done(pv(Primitive::Bool(true), id), 1),
                _ => Dec::Bad,
            },
            P::Char => {
                if b.len() < 4 {
                    return Dec::More;
                }
                match char::from_u32(le(&b[..4]) as u32) {
                    Some(c) => Dec::Done(pv(Primitive::Char(c), id), 4),
                    None => Dec::Bad,
                }
            }
            P::Str => match compact(b, 32) {
                Err(()) => Dec::Bad,
                Ok(None) => Dec::More,
                Ok(Some((n, used))) => {
                    let n = n as usize;
                    if b.len() - used < n {
                        return Dec::More;
                    }
                    match std::str::from_utf8(&b[used..used + n]) {
                        Ok(s) => Dec::Done(pv(Primitive::String(s.to_string()), id), used + n),
                        Err(_) => Dec::Bad,
                    }
                }
            },
            P::U256 | P::I256 => {
                if b.len() < 32 {
                    return Dec::More;
                }
                if b.len() > 32 {
                    return Dec::Skip; // see has_256
                }
                let a: [u8; 32] = b[..32].try_into().unwrap();
                Dec::Done(pv(if p == P::U256 { Primitive::U256(a) } else { Primitive::I256(a) }, id), 32)
            }
            _ => unreachable!(),
        }
    }

    // ---------------------------------------------------------------- reference encoder

    /// Encode a value that has exactly the shape decoding this type produces. None: it does not.
    pub fn encode<X>(&self, id: Id, val: &Value<X>) -> Option<Vec<u8>> {
        let mut out = vec![];
        self.enc(id, &val.value, false, &mut out)?;
        Some(out)
    }
    fn enc_fields<X>(&self, fs: &[F], c: &Composite<X>, cm: bool, out: &mut Vec<u8>) -> Option<()> {
        let all_named = !fs.is_empty() && fs.iter().all(|f| f.0.is_some());
        match c {
            Composite::Named(vs) => {
                if !all_named || vs.len() != fs.len() {
                    return None;
                }
                for (f, (n, x)) in fs.iter().zip(vs) {
                    if f.0.as_ref() != Some(n) {
                        return None;
                    }
                    self.enc(f.1, &x.value, cm, out)?;
                }
            }
            Composite::Unnamed(vs) => {
                if all_named || vs.len() != fs.len() {
                    return None;
                }
                for (f, x) in fs.iter().zip(vs) {
                    self.enc(f.1, &x.value, cm, out)?;
                }
            }
        }
        Some(())
    }
    pub fn enc<X>(&self, id: Id, val: &ValueDef<X>, cm: bool, out: &mut Vec<u8>) -> Option<()> {
        match (self.get(id), val) {
            (T::Prim(p), ValueDef::Primitive(pr)) => self.enc_prim(*p, pr, cm, out),
            (T::Compact(i), x) => self.enc(*i, x, true, out),
            (T::Struct(fs), ValueDef::Composite(c)) => {
                if cm && fs.len() != 1 {
                    return None;
                }
                self.enc_fields(fs, c, cm, out)
            }
            (T::Tuple(is), ValueDef::Composite(Composite::Unnamed(vs))) => {
                if is.len() != vs.len() || (cm && is.len() != 1) {
                    return None;
                }
                for (i, x) in is.iter().zip(vs) {
                    self.enc(*i, &x.value, cm, out)?;
                }
                Some(())
            }
            _ if cm => None,
            (T::Enum(tv), ValueDef::Variant(x)) => {
                let (_, ix, fs) = tv.iter().find(|t| t.0 == x.name)?;
                out.push(*ix);
                self.enc_fields(fs, &x.values, false, out)
            }
            (T::Seq(i), ValueDef::Composite(Composite::Unnamed(vs))) => {
                Compact(vs.len() as u64).encode_to(out);
                for x in vs {
                    self.enc(*i, &x.value, false, out)?;
                }
                Some(())
            }
            (T::Array(n, i), ValueDef::Composite(Composite::Unnamed(vs))) => {
                if vs.len() != *n as usize {
                    return None;
                }
                for x in vs {
                    self.enc(*i, &x.value, false, out)?;
                }
                Some(())
            }
            (T::Bits(s, msb), ValueDef::BitSequence(b)) => {
                let bits: Vec<bool> = b.iter().collect();
                enc_bits(*s, *msb, &bits, out);
                Some(())
            }
            _ => None,
        }
    }
    fn enc_prim(&self, p: P, pr: &Primitive, cm: bool, out: &mut Vec<u8>) -> Option<()> {
        match (p, pr) {
            (P::Bool, Primitive::Bool(b)) if !cm => out.push(*b as u8),
            (P::Char, Primitive::Char(c)) if !cm => out.extend((*c as u32).to_le_bytes()),
            (P::Str, Primitive::String(s)) if !cm => {
                Compact(s.len() as u64).encode_to(out);
                out.extend(s.as_bytes());
            }
            (P::U256, Primitive::U256(b)) if !cm => out.extend(b),
            (P::I256, Primitive::I256(b)) if !cm => out.extend(b),
            (p, Primitive::U128(n)) => {
                let (bits, signed) = int_bits(p)?;
                if signed || (bits < 128 && n >> bits != 0) {
                    return None;
                }
                if cm {
                    Compact(*n).encode_to(out)
                } else {
                    out.extend(&n.to_le_bytes()[..bits as usize / 8])
                }
            }
            (p, Primitive::I128(n)) if !cm => {
                let (bits, signed) = int_bits(p)?;
                let sh = 128 - bits;
                if !signed || (n << sh) >> sh != *n {
                    return None;
                }
                out.extend(&n.to_le_bytes()[..bits as usize / 8])
            }
            _ => return None,
        }
        Some(())
    }
}

pub fn enc_bits(s: Store, msb: bool, bits: &[bool], out: &mut Vec<u8>) {
    Compact(bits.len() as u32).encode_to(out);
    let w = s.bits();
    for ch in bits.chunks(w) {
        let mut word = 0u64;
        for (k, b) in ch.iter().enumerate() {
            if *b {
                let pos = if msb { w - 1 - k } else { k };
                word |= 1 << pos;
            }
        }
        out.extend(&word.to_le_bytes()[..w / 8]);
    }
}

// ---------------------------------------------------------------- value domains

fn pattern(n: usize) -> u128 {
    let mut a = [0u8; 16];
    for (i, x) in a.iter_mut().enumerate().take(n) {
        *x = (i as u8) * 7 + 3;
    }
    u128::from_le_bytes(a)
}

/// The primitive values of a type that the exploration uses. `rich` 0 = fewest.
pub fn prim_domain(p: P, rich: u8, compact: bool) -> Vec<Primitive> {
    if let Some((bits, signed)) = int_bits(p) {
        let n = bits as usize / 8;
        if signed {
            let max = if bits == 128 { i128::MAX } else { (1i128 << (bits - 1)) - 1 };
            let min = -max - 1;
            let mut v = vec![pattern(n) as i128, -1];
            if rich >= 1 {
                v.extend([min, max]);
            }
            if rich >= 2 {
                v.extend([0, 1, -2, min + 1, max - 1, -(pattern(n) as i128)]);
                for k in 1..bits - 1 {
                    v.extend([(1i128 << k) - 1, 1 << k, -(1i128 << k), -(1i128 << k) - 1]);
                }
            }
            let mut seen = std::collections::BTreeSet::new();
            v.retain(|x| seen.insert(*x));
            v.retain(|x| *x >= min && *x <= max);
            v.dedup();
            return v.into_iter().map(Primitive::I128).collect();
        }
        let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let mut v = vec![pattern(n), 1];
        if rich >= 1 {
            v.extend([0, max]);
        }
        if rich >= 2 {
            v.extend([2, max - 1, max / 2, max / 2 + 1]);
            if compact {
                v.extend([63, 64, 65, 255, 256, 16383, 16384, 16385, (1 << 30) - 1, 1 << 30, (1 << 30) + 1]);
                for k in 4..16u32 {
                    v.extend([(1u128 << (8 * k)) - 1, 1u128 << (8 * k)]);
                }
            }
            for k in 1..bits {
                v.extend([(1u128 << k) - 1, 1 << k]);
            }
        }
        v.retain(|x| *x <= max);
        let mut seen = std::collections::BTreeSet::new();
        v.retain(|x| seen.insert(*x));
        return v.into_iter().map(Primitive::U128).collect();
    }
    let pat32 = |k: u8| {
        let mut a = [0u8; 32];
        for (i, x) in a.iter_mut().enumerate() {
            *x = (i as u8).wrapping_mul(5).wrapping_add(k);
        }
        a
    };
    match p {
        P::Bool => vec![Primitive::Bool(true), Primitive::Bool(false)],
        P::Char => {
            let mut v = vec!['a', '\u{10FFFF}'];
            if rich >= 1 {
                v.extend(['\0', 'é', '\u{D7FF}', '\u{E000}']);
            }
            v.into_iter().map(Primitive::Char).collect()
        }
        P::Str => {
            let mut v = vec!["hi".to_string(), String::new()];
            if rich >= 1 {
                v.extend(["é🦀".to_string(), "a\"\\\n\0".to_string()]);
            }
            if rich >= 2 {
                v.extend(["x".repeat(63), "y".repeat(64), "ab".repeat(150)]);
            }
            v.into_iter().map(Primitive::String).collect()
        }
        P::U256 | P::I256 => {
            let mut v = vec![pat32(if p == P::U256 { 1 } else { 2 }), [0xff; 32]];
            if rich >= 2 {
                v.extend(bytes32());
            }
            v.into_iter().map(if p == P::U256 { Primitive::U256 } else { Primitive::I256 }).collect()
        }
        _ => unreachable!(),
    }
}

/// Numbers of 32 bytes: one byte set, the first or last bytes set, all bytes the same.
pub fn bytes32() -> Vec<[u8; 32]> {
    let mut out = vec![];
    for b in [0, 1, 0x7f, 0x80, 0xff] {
        out.push([b; 32]);
    }
    for k in 0..32 {
        for b in [1u8, 0x80, 0xff] {
            let mut x = [0; 32];
            x[k] = b;
            out.push(x);
        }
        for b in [1u8, 0xff] {
            let (mut x, mut y) = ([0; 32], [0; 32]);
            x[..k].fill(b);
            y[k..].fill(b);
            out.extend([x, y]);
        }
    }
    out.sort();
    out.dedup();
    out
}

/// All bit strings up to `n` bits, plus word-boundary lengths with distinctive contents.
pub fn bit_domain(rich: u8) -> Vec<Vec<bool>> {
    let mut out: Vec<Vec<bool>> = vec![vec![true, false, true], vec![]];
    if rich >= 1 {
        for len in [1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130] {
            out.push((0..len).map(|i| i % 3 == 0).collect());
            if rich >= 2 {
                out.push((0..len).map(|i| i == len - 1).collect());
                out.push((0..len).map(|i| i == 0).collect());
                out.push(vec![true; len]);
                out.push(vec![false; len]);
            }
        }
    }
    if rich >= 2 {
        for len in 1..=9usize {
            for m in 0..(1u32 << len) {
                out.push((0..len).map(|i| m >> i & 1 == 1).collect());
            }
        }
    }
    out
}

impl Reg {
    /// The values of this type used by the exploration, in the exact shape decoding produces
    /// (contexts are the type ids decoding would attach). `rich` shrinks with depth; `cap` bounds the
    /// number of values per node (a bound of the explored space; the first `cap` in enumeration order).
    pub fn domain(&self, id: Id, rich: u8, depth: u32, cap: usize) -> Vec<Value<u32>> {
        self.dom(id, rich, depth, cap, false)
    }
    fn dom(&self, id: Id, rich: u8, depth: u32, cap: usize, cm: bool) -> Vec<Value<u32>> {
        if depth == 0 {
            return vec![];
        }
        let sub = rich.saturating_sub(1);
        let mut out: Vec<Value<u32>> = match self.get(id) {
            T::Prim(p) => prim_domain(*p, rich, cm).into_iter().map(|p| pv(p, id)).collect(),
            T::Compact(i) => self.dom(*i, rich, depth, cap, true).into_iter().filter(|x| self.enc(*i, &x.value, true, &mut vec![]).is_some()).collect(),
            T::Struct(fs) => self.prod(&fs.iter().map(|f| f.1).collect::<Vec<_>>(), if fs.len() == 1 { rich } else { sub }, depth - 1, cap, cm).into_iter().map(|vs| v(ValueDef::Composite(mk_comp(fs, vs)), id)).collect(),
            T::Tuple(is) => self.prod(is, if is.len() == 1 { rich } else { sub }, depth - 1, cap, cm).into_iter().map(|vs| v(ValueDef::Composite(Composite::Unnamed(vs)), id)).collect(),
            T::Enum(vs) => {
                let mut o = vec![];
                for (n, _, fs) in vs {
                    for x in self.prod(&fs.iter().map(|f| f.1).collect::<Vec<_>>(), sub, depth - 1, cap.div_ceil(vs.len()).max(2), false) {
                        o.push(v(ValueDef::Variant(Variant { name: n.clone(), values: mk_comp(fs, x) }), id));
                    }
                }
                o
            }
            T::Seq(i) => {
                let mut o = vec![v(ValueDef::Composite(Composite::Unnamed(vec![])), id)];
                let elems = self.dom(*i, sub, depth - 1, cap.min(4), false);
                let maxlen = if rich == 0 { 2 } else { 3 };
                for len in 1..=maxlen {
                    for x in self.prod_vals(&vec![elems.clone(); len], cap) {
                        o.push(v(ValueDef::Composite(Composite::Unnamed(x)), id));
                    }
                }
                if rich >= 2 && !elems.is_empty() {
                    // lengths around the compact-length boundaries
                    for len in [63usize, 64, 65] {
                        o.push(v(ValueDef::Composite(Composite::Unnamed((0..len).map(|k| elems[k % elems.len()].clone()).collect())), id));
                    }
                }
                o
            }
            T::Array(n, i) => self.prod(&vec![*i; *n as usize], sub, depth - 1, cap, false).into_iter().map(|x| v(ValueDef::Composite(Composite::Unnamed(x)), id)).collect(),
            T::Bits(..) => bit_domain(rich)
                .into_iter()
                .map(|b| {
                    let mut s = BitSequence::new();
                    b.into_iter().for_each(|x| s.push(x));
                    v(ValueDef::BitSequence(s), id)
                })
                .collect(),
        };
        let c = if rich >= 2 && matches!(self.get(id), T::Prim(_) | T::Bits(..) | T::Compact(_)) { usize::MAX } else { cap };
        out.truncate(c);
        out
    }
    fn prod(&self, ids: &[Id], rich: u8, depth: u32, cap: usize, cm: bool) -> Vec<Vec<Value<u32>>> {
        let doms: Vec<Vec<Value<u32>>> = ids.iter().map(|i| self.dom(*i, rich, depth, cap, cm)).collect();
        self.prod_vals(&doms, cap)
    }
    /// Cartesian product, diagonal-first so that a cap still varies every component.
    fn prod_vals(&self, doms: &[Vec<Value<u32>>], cap: usize) -> Vec<Vec<Value<u32>>> {
        cart(doms, cap)
    }
}

/// Cartesian product in an order where the sum of component indices grows, so every component
/// varies early. At most `cap` results.
pub fn cart<X: Clone>(doms: &[Vec<X>], cap: usize) -> Vec<Vec<X>> {
    if doms.is_empty() {
        return vec![vec![]];
    }
    if doms.iter().any(|d| d.is_empty()) {
        return vec![];
    }
    let maxsum: usize = doms.iter().map(|d| d.len() - 1).sum();
    let mut out = vec![];
    let mut idx = vec![0usize; doms.len()];
    fn rec<X: Clone>(doms: &[Vec<X>], k: usize, left: usize, idx: &mut Vec<usize>, out: &mut Vec<Vec<X>>, cap: usize) {
        if out.len() >= cap {
            return;
        }
        if k == doms.len() {
            if left == 0 {
                out.push(idx.iter().enumerate().map(|(i, j)| doms[i][*j].clone()).collect());
            }
            return;
        }
        let rest: usize = doms[k + 1..].iter().map(|d| d.len() - 1).sum();
        let lo = left.saturating_sub(rest);
        for j in lo..=left.min(doms[k].len() - 1) {
            idx[k] = j;
            rec(doms, k + 1, left - j, idx, out, cap);
        }
    }
    for s in 0..=maxsum {
        rec(doms, 0, s, &mut idx, &mut out, cap);
        if out.len() >= cap {
            break;
        }
    }
    out
}

fn mk_comp(fs: &[F], vs: Vec<Value<u32>>) -> Composite<u32> {
    if !fs.is_empty() && fs.iter().all(|f| f.0.is_some()) {
        Composite::Named(fs.iter().map(|f| f.0.clone().unwrap()).zip(vs).collect())
    } else {
        Composite::Unnamed(vs)
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s += &format!("{x:02x}");
    }
    s
}

/// A total, unambiguous rendering of a value (the crate's own printer is under test).
pub fn showv<X>(x: &Value<X>) -> String {
    match &x.value {
        ValueDef::Composite(c) => showc(c),
        ValueDef::Variant(w) => format!("{:?}{}", w.name, showc(&w.values)),
        ValueDef::BitSequence(b) => format!("<{}>", b.iter().map(|x| if x { '1' } else { '0' }).collect::<String>()),
        ValueDef::Primitive(p) => match p {
            Primitive::U256(b) => format!("U256:{}", hex(b)),
            Primitive::I256(b) => format!("I256:{}", hex(b)),
            Primitive::U128(n) => format!("{n}u"),
            Primitive::I128(n) => format!("{n}i"),
            Primitive::Bool(b) => format!("{b}"),
            Primitive::Char(c) => format!("{c:?}"),
            Primitive::String(s) => format!("{s:?}"),
        },
    }
}
pub fn showc<X>(c: &Composite<X>) -> String {
    match c {
        Composite::Named(v) => format!("{{{}}}", v.iter().map(|(n, x)| format!("{n:?}:{}", showv(x))).collect::<Vec<_>>().join(",")),
        Composite::Unnamed(v) => format!("({})", v.iter().map(|x| showv(x)).collect::<Vec<_>>().join(",")),
    }
}
