//! serde properties J01-J04.
use crate::dyn_serde::*;
use crate::engine::*;
use crate::tys::*;
use crate::vals as w;
use crate::vals::V;
use codec::Encode;
use scale_value::serde::{from_value, to_value, DeserializerError};
use scale_value::{scale, Composite, Primitive, Value, ValueDef, Variant};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// All types: every leaf, every constructor on it, every constructor on those, and so on.
pub fn types(tier: Tier) -> Vec<DT> {
    let mut out = leaves();
    let l1: Vec<DT> = leaves().iter().flat_map(apply).collect();
    let l2: Vec<DT> = if tier == Tier::Quick { few_leaves().iter().flat_map(apply).flat_map(|t| apply(&t)).collect() } else { l1.iter().flat_map(apply).collect() };
    let deep: Vec<DT> = few_leaves().into_iter().take(tier.pick(1, 4)).collect();
    let l3: Vec<DT> = deep.iter().flat_map(apply).flat_map(|t| apply(&t)).flat_map(|t| apply(&t)).collect();
    if tier == Tier::Thorough {
        // one leaf, four levels
        out.extend(apply(&DT::Int(P::U8)).iter().flat_map(apply).flat_map(|t| apply(&t)).flat_map(|t| apply(&t)));
    }
    out.extend(l1);
    out.extend(l2);
    out.extend(l3);
    out
}

/// The same idea taken further: quick takes what `types` has for thorough.
fn more_types(tier: Tier) -> &'static [DT] {
    static Q: std::sync::OnceLock<Vec<DT>> = std::sync::OnceLock::new();
    static T: std::sync::OnceLock<Vec<DT>> = std::sync::OnceLock::new();
    match tier {
        Tier::Quick => Q.get_or_init(|| types(Tier::Thorough)),
        Tier::Thorough => T.get_or_init(|| {
            let again = |l: &[DT]| -> Vec<DT> { l.iter().flat_map(apply).collect() };
            let l1 = again(&leaves());
            let l2 = again(&l1);
            let l3 = again(&l2);
            let mut out = leaves();
            out.extend(again(&again(&again(&again(&few_leaves()[..3])))));
            out.extend(l1);
            out.extend(l2);
            out.extend(l3);
            out
        }),
    }
}
fn chunks(tier: Tier, f: impl Fn(&DT, &mut Rec) + Send + Sync + Copy + 'static) -> Vec<Item> {
    let n = tier.pick(128, 1024);
    (0..n)
        .map(|k| {
            item(format!("types {k} mod {n}"), move |rec: &mut Rec| {
                for t in more_types(rec.tier).iter().skip(k).step_by(n) {
                    f(t, rec);
                }
            })
        })
        .collect()
}
fn data(t: &DT, tier: Tier) -> Vec<DD> {
    domain(t, true, tier.pick(24, 40))
}
fn showd(t: &DT, d: &DD) -> String {
    format!("{} = {}", show(t), showv(&value_of(t, d)))
}

pub fn err(e: DeserializerError) -> String {
    e.to_string()
}

// ------------------------------------------------------------------ J01

pub fn j01(tier: Tier) -> Vec<Item> {
    let mut out = chunks(tier, |t, rec| {
        for d in data(t, rec.tier) {
            rec.case(|| showd(t, &d), || j01_case(t, &d));
        }
    });
    out.extend(long(j01_case));
    out.push(item("standard library types and attributes", others));
    out.push(item("derived types", |rec| derived(rec, true)));
    out
}
fn j01_case(t: &DT, d: &DD) -> Verdict {
    steps(2);
    let v = to_value(With(t, d)).map_err(|e| format!("does not convert to a value: {e}"))?;
    // the context has no say, and neither has the outermost wrapping
    let with_ctx = w::number(&v);
    let def = v.value.clone();
    let again = t.deserialize(v.clone()).map_err(|e| format!("{} does not convert back: {e}", showv(&v)))?;
    if again != *d {
        return Err(format!("{} converts back to {again:?} instead of {d:?}", showv(&v)));
    }
    steps(2);
    match t.deserialize(with_ctx) {
        Ok(x) if x == *d => {}
        x => return Err(format!("with contexts, {} converts back to {x:?}", showv(&v))),
    }
    match t.deserialize(def) {
        Ok(x) if x == *d => {}
        x => return Err(format!("as a definition, {} converts back to {x:?}", showv(&v))),
    }
    // the parts of a value can be read on their own, too
    step();
    let part = match v.value.clone() {
        ValueDef::Composite(c) => Some(t.deserialize(c)),
        ValueDef::Variant(x) => Some(t.deserialize(x)),
        ValueDef::Primitive(p) => Some(t.deserialize(p)),
        _ => None,
    };
    match part {
        Some(Ok(x)) if x == *d => {}
        None => {}
        Some(x) => return Err(format!("unwrapped, {} converts back to {x:?}", showv(&v))),
    }
    Ok(match v.value {
        ValueDef::Composite(Composite::Named(_)) => "named",
        ValueDef::Composite(Composite::Unnamed(_)) => "unnamed",
        ValueDef::Variant(_) => "variant",
        ValueDef::Primitive(_) => "primitive",
        ValueDef::BitSequence(_) => "bits",
    })
}

/// Data with many parts, up to and past every likely boundary.
pub fn long(f: fn(&DT, &DD) -> Verdict) -> Vec<Item> {
    let lens = crate::big::lengths(20, &[6, 7, 8, 10, 12, 14, 16]);
    static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let names = |n: usize| -> Names { &NAMES.get_or_init(|| (0..70_000).map(|k| &*Box::leak(format!("f{k}").into_boxed_str())).collect())[..n] };
    lens.into_iter()
        .map(|n| {
            item(format!("{n} parts"), move |rec: &mut Rec| {
                let u32_ = || DT::Int(P::U32);
                let num = |k: usize| DD::U(k as u128 * 65_537 % (1 << 32));
                let nums = || (0..n).map(num).collect::<Vec<_>>();
                let text: String = ('a'..='z').cycle().take(n).collect();
                let mut all: Vec<(&str, DT, DD)> = vec![
                    ("list", DT::Seq(Box::new(u32_())), DD::List(nums())),
                    ("list of bytes", DT::Seq(Box::new(DT::Int(P::U8))), DD::List((0..n).map(|k| DD::U(k as u128 % 256)).collect())),
                    ("list of pairs", DT::Seq(Box::new(DT::Tuple(vec![u32_(), DT::Bool]))), DD::List((0..n).map(|k| DD::List(vec![num(k), DD::Bool(k % 3 == 0)])).collect())),
                    ("list of options", DT::Seq(Box::new(DT::Opt(Box::new(u32_())))), DD::List((0..n).map(|k| if k % 3 == 0 { DD::None } else { DD::Some(Box::new(num(k))) }).collect())),
                    ("bytes", DT::Bytes, DD::Bytes((0..n).map(|k| k as u8).collect())),
                    ("string", DT::Str, DD::Str(text)),
                    ("tuple", DT::Tuple(vec![u32_(); n]), DD::List(nums())),
                    ("tuple struct", DT::TupleStruct(vec![u32_(); n]), DD::List(nums())),
                    ("map", DT::Map(Box::new(u32_())), DD::Map((0..n).map(|k| (format!("k{k}"), num(k))).collect())),
                ];
                // Fields are found by comparing names, which takes a while for many.
                if n > 0 && n <= rec.tier.pick(1100, 5000) {
                    all.push(("struct", DT::Struct(names(n), vec![u32_(); n]), DD::List(nums())));
                    let cases: Vec<VT> = (0..n).map(|k| if k % 2 == 0 { VT::Unit } else { VT::Newtype(Box::new(u32_())) }).collect();
                    for k in [0, n / 2, n - 1] {
                        let d = if k % 2 == 0 { DD::Unit } else { num(k) };
                        all.push(("case", DT::Enum(names(n), cases.clone()), DD::Var(k, Box::new(d))));
                    }
                    let t = DT::Enum(&["A", "B"], vec![VT::Tuple(vec![u32_(); n]), VT::Struct(names(n), vec![u32_(); n])]);
                    all.push(("struct case", t.clone(), DD::Var(1, Box::new(DD::List(nums())))));
                    if n > 1 {
                        all.push(("tuple case", t, DD::Var(0, Box::new(DD::List(nums())))));
                    }
                }
                for (what, t, d) in &all {
                    rec.case(|| format!("{what} with {n} parts"), || f(t, d));
                    let (t, d) = (DT::Struct(&["x", "y"], vec![DT::Opt(Box::new(t.clone())), DT::Bool]), DD::List(vec![DD::Some(Box::new(d.clone())), DD::Bool(true)]));
                    rec.case(|| format!("{what} with {n} parts in a struct"), || f(&t, &d));
                }
            })
        })
        .chain((0..8).map(|part| item(format!("names {part}"), move |rec: &mut Rec| spelled(part, 8, f, rec))))
        .collect()
}
/// Fields, cases and map keys of every spelling.
fn spelled(part: usize, parts: usize, f: fn(&DT, &DD) -> Verdict, rec: &mut Rec) {
    let names = w::all_names();
    let int = |p| DT::Int(p);
    let l = |xs: &[u128]| DD::List(xs.iter().map(|n| DD::U(*n)).collect());
    let mut go = |t: DT, d: DD| {
        rec.case(|| showd(&t, &d), || f(&t, &d));
        let (t, d) = (DT::Seq(Box::new(t)), DD::List(vec![d.clone(), d]));
        rec.case(|| showd(&t, &d), || f(&t, &d));
    };
    let leak = |v: Vec<&'static str>| -> Names { Box::leak(v.into_boxed_slice()) };
    for k in (part..names.len()).step_by(parts) {
        let n = names[k];
        let next = names[(k + 1) % names.len()];
        go(DT::Struct(leak(vec![n]), vec![int(P::U8)]), l(&[7]));
        go(DT::Struct(leak(vec![n, next]), vec![int(P::U8), int(P::U16)]), l(&[7, 300]));
        go(DT::Struct(leak(vec![next, n]), vec![int(P::U16), int(P::U8)]), l(&[300, 7]));
        let (two, cases) = (leak(vec![next, n]), vec![VT::Unit, VT::Unit]);
        go(DT::Enum(two, cases), DD::Var(1, Box::new(DD::Unit)));
        let cases = vec![VT::Newtype(Box::new(int(P::U8))), VT::Newtype(Box::new(int(P::U8)))];
        go(DT::Enum(two, cases), DD::Var(1, Box::new(DD::U(9))));
        let cases = vec![VT::Tuple(vec![int(P::U8); 2]), VT::Tuple(vec![int(P::U8); 2])];
        go(DT::Enum(two, cases), DD::Var(1, Box::new(l(&[1, 2]))));
        let cases = vec![VT::Struct(two, vec![int(P::U8); 2]), VT::Struct(two, vec![int(P::U8); 2])];
        go(DT::Enum(two, cases), DD::Var(1, Box::new(l(&[1, 2]))));
        go(DT::Map(Box::new(int(P::U8))), DD::Map(vec![(n.to_string(), DD::U(1))]));
        if n != next {
            let mut m = vec![(n.to_string(), DD::U(1)), (next.to_string(), DD::U(2))];
            m.sort_by(|a, b| a.0.cmp(&b.0));
            go(DT::Map(Box::new(int(P::U8))), DD::Map(m));
        }
    }
    if part == 0 {
        let (all, n): (Names, usize) = (names, names.len());
        go(DT::Struct(all, vec![int(P::U8); n]), l(&(0..n as u128).collect::<Vec<_>>()));
    }
    for k in (part..names.len()).step_by(parts) {
        go(DT::Enum(names, vec![VT::Newtype(Box::new(int(P::U8))); names.len()]), DD::Var(k, Box::new(DD::U(k as u128))));
        go(DT::Enum(names, vec![VT::Unit; names.len()]), DD::Var(k, Box::new(DD::Unit)));
    }
}

// ------------------------------------------------------------------ really derived types

macro_rules! derived_types {
    ($($i:item)*) => { $(
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize, codec::Encode, codec::Decode, scale_info::TypeInfo)]
        $i
    )* }
}
derived_types! {
    struct Unit;
    struct EmptyT();
    struct EmptyS {}
    struct N8(u8);
    struct NStr(String);
    struct NVec(Vec<u8>);
    struct NN(N8);
    struct NUnit(());
    struct NTup((u8, bool));
    struct NTup1((u8,));
    struct NOpt(Option<u8>);
    struct NS(S2);
    struct NE(E);
    struct NVV(Vec<Vec<u8>>);
    struct NArr1([u8; 1]);
    struct T2(u8, String);
    struct S1 { a: u8 }
    struct S2 { a: u8, b: Vec<String> }
    struct S3 { name: String, values: Vec<u16>, kind: Option<Option<bool>> }
    struct SN { n: N8, m: NN, e: E }
    enum E { A, B(u8), C(u8, bool), D { x: i64 }, F(()), G(S1), H(Vec<u16>), I((u8, u8)), J(Option<u8>), K(N8), L(Box<E>), M(), O {}, P(E2), Q([u8; 1]), R(Unit) }
    enum E2 { None, Some(u8), Ok { name: String } }
    struct Ints { a: u8, b: u16, c: u32, d: u64, e: u128, f: i8, g: i16, h: i32, i: i64, j: i128 }
    struct G<T> { t: T, u: Vec<T> }
}

/// A type with exhaustive lists of sample data; used to compare the interpreter with derived code.
fn derived(rec: &mut Rec, back: bool) {
    fn go<X>(rec: &mut Rec, back: bool, xs: Vec<X>)
    where
        X: Serialize + for<'de> Deserialize<'de> + Encode + scale_info::TypeInfo + Clone + PartialEq + Debug + 'static,
    {
        let mut r = scale_info::Registry::new();
        let id = r.register_type(&scale_info::MetaType::new::<X>()).id;
        let types: scale_info::PortableRegistry = r.into();
        for x in xs {
            rec.case(
                || format!("{} {x:?}", std::any::type_name::<X>()),
                || {
                    steps(2);
                    let v = to_value(x.clone()).map_err(|e| format!("does not convert to a value: {e}"))?;
                    if back {
                        let again: X = from_value(v.clone()).map_err(|e| format!("{} does not convert back: {e}", showv(&v)))?;
                        if again != x {
                            return Err(format!("{} converts back to {again:?}", showv(&v)));
                        }
                        return Ok("derived type");
                    }
                    let want = x.encode();
                    let mut got = vec![];
                    scale::encode_as_type(&v, id, &types, &mut got).map_err(|e| format!("{} does not encode: {e}", showv(&v)))?;
                    if got != want {
                        return Err(format!("{} encodes to {} instead of {}", showv(&v), hex(&got), hex(&want)));
                    }
                    let dec = scale::decode_as_type(&mut &*want, id, &types).map_err(|e| format!("does not decode: {e}"))?;
                    let again: X = from_value(dec.clone()).map_err(|e| format!("{} as decoded does not convert to the type: {e}", showv(&dec)))?;
                    if again != x {
                        return Err(format!("{} as decoded converts to {again:?}", showv(&dec)));
                    }
                    Ok("derived type")
                },
            );
        }
    }
    let e2 = || vec![E2::None, E2::Some(1), E2::Ok { name: "x".into() }];
    let es = || {
        let mut v = vec![
            E::A,
            E::B(0),
            E::B(255),
            E::C(1, true),
            E::D { x: i64::MIN },
            E::F(()),
            E::G(S1 { a: 3 }),
            E::H(vec![]),
            E::H(vec![1]),
            E::H(vec![1, 2]),
            E::I((1, 2)),
            E::J(None),
            E::J(Some(4)),
            E::K(N8(9)),
            E::L(Box::new(E::A)),
            E::L(Box::new(E::L(Box::new(E::B(1))))),
            E::M(),
            E::O {},
            E::Q([7]),
            E::R(Unit),
        ];
        v.extend(e2().into_iter().map(E::P));
        v
    };
    let s2 = || vec![S2 { a: 1, b: vec![] }, S2 { a: 0, b: vec!["x".into()] }, S2 { a: 255, b: vec!["".into(), "y z".into()] }];
    go(rec, back, vec![Unit]);
    go(rec, back, vec![EmptyT()]);
    go(rec, back, vec![EmptyS {}]);
    go(rec, back, (0..=255).map(N8).collect());
    go(rec, back, vec![NStr("".into()), NStr("x".into())]);
    go(rec, back, vec![NVec(vec![]), NVec(vec![1]), NVec(vec![1, 2, 3])]);
    go(rec, back, vec![NN(N8(0)), NN(N8(200))]);
    go(rec, back, vec![NUnit(())]);
    go(rec, back, vec![NTup((1, true))]);
    go(rec, back, vec![NTup1((1,))]);
    go(rec, back, vec![NOpt(None), NOpt(Some(1))]);
    go(rec, back, s2().into_iter().map(NS).collect());
    go(rec, back, es().into_iter().map(NE).collect());
    go(rec, back, vec![NVV(vec![]), NVV(vec![vec![]]), NVV(vec![vec![1]]), NVV(vec![vec![1, 2], vec![3]])]);
    go(rec, back, vec![NArr1([1])]);
    go(rec, back, vec![T2(1, "x".into())]);
    go(rec, back, vec![S1 { a: 1 }]);
    go(rec, back, s2());
    go(
        rec,
        back,
        vec![
            S3 { name: "n".into(), values: vec![], kind: None },
            S3 { name: "".into(), values: vec![1, 65535], kind: Some(None) },
            S3 { name: "None".into(), values: vec![0], kind: Some(Some(true)) },
        ],
    );
    go(rec, back, es().into_iter().map(|e| SN { n: N8(1), m: NN(N8(2)), e }).collect());
    go(rec, back, es());
    go(rec, back, e2());
    go(
        rec,
        back,
        vec![
            Ints { a: 0, b: 0, c: 0, d: 0, e: 0, f: 0, g: 0, h: 0, i: 0, j: 0 },
            Ints { a: u8::MAX, b: u16::MAX, c: u32::MAX, d: u64::MAX, e: u128::MAX, f: i8::MAX, g: i16::MAX, h: i32::MAX, i: i64::MAX, j: i128::MAX },
            Ints { a: 1, b: 256, c: 65536, d: 1 << 32, e: 1 << 64, f: i8::MIN, g: i16::MIN, h: i32::MIN, i: i64::MIN, j: i128::MIN },
        ],
    );
    go(rec, back, es().into_iter().map(|e| G { t: e.clone(), u: vec![e, E::A] }).collect());
    go(rec, back, es().into_iter().map(|e| Some(vec![(e, [1u8, 2], "s".to_string())])).collect::<Vec<Option<Vec<(E, [u8; 2], String)>>>>());
}

/// Types of the standard library, and derived types with the usual attributes, there and back.
fn others(rec: &mut Rec) {
    use std::borrow::Cow;
    use std::collections::*;
    use std::net::*;
    use std::num::*;
    use std::ops::Bound;
    use std::time::Duration;
    fn go<X>(rec: &mut Rec, xs: Vec<X>)
    where
        X: Serialize + for<'de> Deserialize<'de> + PartialEq + Debug,
    {
        fn one<X: Serialize + for<'de> Deserialize<'de> + PartialEq + Debug>(rec: &mut Rec, x: &X) {
            rec.case(
                || format!("{} {x:?}", std::any::type_name::<X>()),
                || {
                    steps(2);
                    let v = to_value(x).map_err(|e| format!("does not convert to a value: {e}"))?;
                    let again: X = from_value(v.clone()).map_err(|e| format!("{} does not convert back: {e}", showv(&v)))?;
                    if again != *x {
                        return Err(format!("{} converts back to {again:?}", showv(&v)));
                    }
                    let ctx = v.clone().map_context(|_| "ctx");
                    let again: X = from_value(ctx).map_err(|e| format!("{} with contexts does not convert back: {e}", showv(&v)))?;
                    if again != *x {
                        return Err(format!("{} with contexts converts back to {again:?}", showv(&v)));
                    }
                    Ok("derived type")
                },
            );
        }
        for x in &xs {
            one(rec, x);
        }
        // ... and in everything
        for x in &xs {
            one(rec, &Wrapped(x));
        }
        let mut n = 0;
        for x in xs {
            one(rec, &Some(Held { before: n, it: x, after: "z".into() }));
            n += 1;
        }
    }
    /// A reference on the way there, an owned datum on the way back.
    struct Wrapped<'a, X>(&'a X);
    impl<X: Debug> Debug for Wrapped<'_, X> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "[(1, {:?})]", self.0)
        }
    }
    impl<X: Serialize> Serialize for Wrapped<'_, X> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            [(1u8, self.0)].serialize(s)
        }
    }
    impl<X: PartialEq> PartialEq for Wrapped<'_, X> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<'de, X: Deserialize<'de>> Deserialize<'de> for Wrapped<'_, X> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let [(n, x)] = <[(u8, X); 1]>::deserialize(d)?;
            assert_eq!(n, 1);
            Ok(Wrapped(Box::leak(Box::new(x))))
        }
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct Held<X> {
        before: u64,
        it: X,
        after: String,
    }
    let ip4 = [Ipv4Addr::UNSPECIFIED, Ipv4Addr::new(1, 2, 3, 255)];
    let ip6 = [Ipv6Addr::UNSPECIFIED, Ipv6Addr::new(1, 2, 3, 4, 5, 6, 7, 0xffff)];
    go(rec, ip4.to_vec());
    go(rec, ip6.to_vec());
    go(rec, vec![IpAddr::V4(ip4[1]), IpAddr::V6(ip6[1])]);
    go(rec, vec![SocketAddr::new(IpAddr::V4(ip4[0]), 80), SocketAddr::new(IpAddr::V6(ip6[1]), 65535)]);
    go(rec, vec![Duration::ZERO, Duration::MAX, Duration::new(1, 999_999_999)]);
    go(rec, vec![std::time::UNIX_EPOCH, std::time::UNIX_EPOCH + Duration::new(5, 6)]);
    go(rec, vec![0..0u8, 3..200]);
    go(rec, vec![1..=5i64]);
    go(rec, vec![1u8.., 255..]);
    go(rec, vec![..1u8]);
    go(rec, vec![Bound::Included(1u8), Bound::Excluded(2), Bound::Unbounded]);
    go(rec, vec![Ok::<u8, String>(1), Err("x".into()), Err(String::new())]);
    go(rec, vec![Ok::<(), ()>(()), Err(())]);
    go(rec, vec![Wrapping(0u8), Wrapping(255)]);
    go(rec, vec![Saturating(1i16)]);
    go(rec, vec![NonZeroU8::MIN, NonZeroU8::MAX]);
    go(rec, vec![NonZeroI128::MIN, NonZeroI128::MAX]);
    go(rec, vec![Some(NonZeroU64::MAX), None]);
    go(rec, vec![usize::MAX, 0]);
    go(rec, vec![isize::MIN, isize::MAX]);
    go(rec, vec![Box::new(1u8)]);
    go(rec, vec![Box::<str>::from(""), "abc".into()]);
    go(rec, vec![Box::<[u16]>::from([]), Box::new([1, 2])]);
    go(rec, vec![Cow::<'static, str>::Borrowed("x"), Cow::Owned("y".into())]);
    go(rec, vec![Cow::<'static, [u8]>::Borrowed(&[1, 2])]);
    go(rec, vec![std::path::PathBuf::new(), "/a/b c".into()]);
    go(rec, vec![std::ffi::CString::default(), c"x\xff".to_owned()]);
    go(rec, vec![std::ffi::OsString::new(), "x é".into()]);
    go(rec, vec![std::cell::Cell::new(7u8)]);
    go(rec, vec![std::cell::RefCell::new(vec![1u8])]);
    go(rec, vec![std::marker::PhantomData::<u8>]);
    go(rec, vec![std::cmp::Reverse(1u8)]);
    go(rec, vec![()]);
    go(rec, vec![None::<()>, Some(())]);
    go(rec, vec![None, Some(None), Some(Some(())), Some(Some(()))]);
    go(rec, vec![None, Some(vec![]), Some(vec![None, Some(0u8)])]);
    go(rec, vec![Vec::<()>::new(), vec![()], vec![(), ()]]);
    go(rec, vec![[0u8; 0]]);
    go(rec, vec![[[1u8, 2], [3, 4]]]);
    go(rec, vec![[7u64; 32]]);
    go(rec, vec![(1u8,)]);
    go(rec, vec![(1u8, 2u16, 3u64, 5u128, 6i8, 9i64, 10i128, 'a', "b".to_string(), true, (), (None::<u8>, [1u8]))]);
    go(rec, vec![VecDeque::from([1u8, 2]), VecDeque::new()]);
    go(rec, vec![LinkedList::from(["x".to_string()])]);
    go(rec, vec![BTreeSet::from([3u8, 1]), BTreeSet::new()]);
    go(rec, vec![HashSet::from(["x".to_string()])]);
    go(rec, vec![BTreeMap::<String, u8>::new(), BTreeMap::from([("".into(), 0), ("a b".into(), 1), ("0".into(), 2)])]);
    go(rec, vec![BTreeMap::from([('a', vec![1u8]), ('"', vec![])])]);
    let all: Vec<char> = (0..0x110000).filter_map(char::from_u32).filter(|c| (*c as u32) < 0x600 || crate::s::at_class_edge(*c)).collect();
    go(rec, all.clone());
    go(rec, vec![all.clone()]);
    go(rec, vec![all.iter().collect::<String>()]);
    go(rec, all.windows(2).map(|c| BTreeMap::from([(c[0], 1u8), (c[1], 2)])).collect());
    go(rec, all.windows(2).map(|c| BTreeMap::from([(c.iter().collect::<String>(), Some(c[0])), (c[1].to_string(), None)])).collect());
    go(rec, vec![all.iter().map(|c| (*c, *c as u32)).collect::<BTreeMap<char, u32>>()]);
    go(rec, vec![HashMap::from([("k".to_string(), BTreeMap::from([('c', None), ('d', Some(1u8))]))])]);
    go(rec, vec![BTreeMap::from([("None".to_string(), "Some".to_string())])]);
    go(rec, vec!["".to_string(), "\0".into(), "é\u{10ffff}\"\\".into()]);
    go(rec, ['\0', 'a', '\'', '\u{d7ff}', '\u{e000}', char::MAX].to_vec());

    // Attributes that leave the representation as it is, or change it to another plain one.
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(rename_all = "camelCase")]
    struct Renamed {
        first_name: u8,
        #[serde(rename = "type")]
        kind: String,
        #[serde(alias = "old")]
        new: bool,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
    #[serde(default, deny_unknown_fields)]
    struct Defaults {
        a: u8,
        #[serde(skip_serializing_if = "Option::is_none")]
        b: Option<u8>,
        #[serde(skip_serializing_if = "Vec::is_empty")]
        c: Vec<u8>,
        #[serde(skip)]
        d: u8,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(transparent)]
    struct Through {
        x: Vec<u8>,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(rename_all = "kebab-case")]
    enum Cases {
        FirstCase,
        #[serde(rename = "")]
        Empty(u8),
        #[serde(rename = "a b")]
        Spaced {
            x: u8,
        },
        Tuple(Through, Defaults),
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(tag = "t", content = "c")]
    enum Adjacent {
        Unit,
        One(u128),
        Two(u8, i128),
        Rec { a: Option<u64> },
        Inner(Box<Adjacent>),
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    #[serde(try_from = "u8", into = "u8")]
    struct Even(u8);
    impl TryFrom<u8> for Even {
        type Error = String;
        fn try_from(n: u8) -> Result<Even, String> {
            if n % 2 == 0 {
                Ok(Even(n))
            } else {
                Err("odd".into())
            }
        }
    }
    impl From<Even> for u8 {
        fn from(e: Even) -> u8 {
            e.0
        }
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    struct Generic<T, const N: usize>
    where
        [T; N]: Serialize + for<'a> Deserialize<'a>,
    {
        x: [T; N],
    }
    go(rec, vec![Renamed { first_name: 1, kind: "k".into(), new: true }]);
    let defaults = || vec![Defaults::default(), Defaults { a: 1, b: Some(2), c: vec![], d: 0 }, Defaults { a: 1, b: None, c: vec![3], d: 0 }];
    go(rec, defaults());
    go(rec, vec![Through { x: vec![] }, Through { x: vec![1] }, Through { x: vec![1, 2] }]);
    let mut cases = vec![Cases::FirstCase, Cases::Empty(3), Cases::Spaced { x: 1 }];
    cases.extend(defaults().into_iter().map(|d| Cases::Tuple(Through { x: vec![9] }, d)));
    go(rec, cases);
    let adjacent = vec![Adjacent::Unit, Adjacent::One(u128::MAX), Adjacent::Two(255, i128::MIN), Adjacent::Rec { a: None }, Adjacent::Rec { a: Some(u64::MAX) }];
    go(rec, adjacent.iter().map(|x| Adjacent::Inner(Box::new(x.clone()))).collect());
    go(rec, adjacent);
    go(rec, vec![Even(0), Even(254)]);
    go(rec, vec![Generic { x: [Some(1u8), None] }]);
}

// ------------------------------------------------------------------ J02

pub fn trees(tier: Tier) -> Vec<V> {
    let mut sc = w::scalars(tier);
    let mut big = [0u8; 32];
    big.iter_mut().enumerate().for_each(|(k, b)| *b = (k as u8).wrapping_mul(9));
    for b in [[0u8; 32], [255; 32], big] {
        sc.push(w::p(Primitive::U256(b)));
        sc.push(w::p(Primitive::I256(b)));
    }
    let mut out = sc.clone();
    for b in bytes32() {
        out.extend([w::p(Primitive::U256(b)), w::p(Primitive::I256(b)), w::un(vec![w::p(Primitive::I256(b)), w::var("A", w::cn(vec![("a", w::p(Primitive::U256(b)))]))])]);
    }
    let mut few = w::few();
    few.push(w::p(Primitive::I256(big)));
    few.push(w::u(u128::MAX));
    let names: [&str; 7] = ["a", "b", "", "name", "values", "a", "é \""];
    let vn = ["A", "None", "Some", "", "name"];
    for x in &sc {
        out.extend(w::frames(x, "n m"));
    }
    let l1 = w::containers(&few, 3, &names, &vn);
    for same in [["", "", "a", "a", "b"], ["a", "a", "a", "a", "a"], ["b", "a", "a", "", ""]] {
        out.extend(w::containers(&few[..3], 4, &same, &vn[..1]));
    }
    let small = w::containers(&few[..tier.pick(2, 5)], 2, &names, &vn[..3]);
    let mut l2 = small.clone();
    l2.extend(few[..2].to_vec());
    out.extend(l1);
    out.extend(w::containers(&l2, tier.pick(1, 2), &names[..4], &vn[..2]));
    // three levels
    let l3 = w::containers(&w::containers(&small, 1, &names[..2], &vn[..2]), 1, &names[2..5], &vn[2..3]);
    out.extend(l3);
    out
}

pub const MARK: &str = "__bitvec__values__";

/// What reading a value back as a value gives: the same, but for 256-bit numbers, which can only be
/// handed over as bytes.
pub fn as_read(v: &V) -> V {
    let c = |c: &Composite<()>| match c {
        Composite::Named(xs) => Composite::Named(xs.iter().map(|(n, x)| (n.clone(), as_read(x))).collect()),
        Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(as_read).collect()),
    };
    match &v.value {
        ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => w::un(b.iter().map(|x| w::u(*x as u128)).collect()),
        ValueDef::Composite(x) => w::v(ValueDef::Composite(c(x))),
        ValueDef::Variant(x) => w::v(ValueDef::Variant(Variant { name: x.name.clone(), values: c(&x.values) })),
        _ => v.clone(),
    }
}

/// The structure a value has for a serializer.
fn as_serialized(v: &V, bits_as_list: bool) -> V {
    let c = |c: &Composite<()>| match c {
        Composite::Named(xs) => Composite::Named(xs.iter().map(|(n, x)| (n.clone(), as_serialized(x, bits_as_list))).collect()),
        Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(|x| as_serialized(x, bits_as_list)).collect()),
    };
    match &v.value {
        ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => w::un(b.iter().map(|x| w::u(*x as u128)).collect()),
        ValueDef::Composite(x) => w::v(ValueDef::Composite(c(x))),
        ValueDef::Variant(x) => w::nm(vec![("name", w::s(&x.name)), ("values", w::v(ValueDef::Composite(c(&x.values))))]),
        ValueDef::BitSequence(b) if bits_as_list => w::nm(vec![(MARK, w::un(b.iter().map(w::b).collect()))]),
        _ => v.clone(),
    }
}

fn json_str(s: &str, out: &mut String) {
    out.push('"');
    for ch in s.chars() {
        match ch {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
/// The JSON text of a value.
fn json(v: &V, out: &mut String) {
    let comp = |c: &Composite<()>, out: &mut String| match c {
        Composite::Named(xs) => {
            out.push('{');
            for (k, (n, x)) in xs.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                json_str(n, out);
                out.push(':');
                json(x, out);
            }
            out.push('}');
        }
        Composite::Unnamed(xs) => {
            out.push('[');
            for (k, x) in xs.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                json(x, out);
            }
            out.push(']');
        }
    };
    match &v.value {
        ValueDef::Composite(c) => comp(c, out),
        ValueDef::Variant(x) => {
            out.push_str("{\"name\":");
            json_str(&x.name, out);
            out.push_str(",\"values\":");
            comp(&x.values, out);
            out.push('}');
        }
        ValueDef::BitSequence(b) => {
            out.push_str(&format!("{{\"{MARK}\":["));
            out.push_str(&b.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","));
            out.push_str("]}");
        }
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => out.push_str(&b.to_string()),
            Primitive::Char(c) => json_str(&c.to_string(), out),
            Primitive::String(s) => json_str(s, out),
            Primitive::U128(n) => out.push_str(&n.to_string()),
            Primitive::I128(n) => out.push_str(&n.to_string()),
            Primitive::U256(b) | Primitive::I256(b) => out.push_str(&format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))),
        },
    }
}
/// What reading that JSON gives, or nothing if JSON numbers cannot hold it.
fn from_json(v: &V) -> Option<V> {
    let c = |c: &Composite<()>| -> Option<Composite<()>> {
        Some(match c {
            Composite::Named(xs) => Composite::Named(xs.iter().map(|(n, x)| Some((n.clone(), from_json(x)?))).collect::<Option<_>>()?),
            Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(from_json).collect::<Option<_>>()?),
        })
    };
    Some(match &v.value {
        ValueDef::Composite(x) => w::v(ValueDef::Composite(c(x)?)),
        ValueDef::Variant(x) => w::nm(vec![("name", w::s(&x.name)), ("values", w::v(ValueDef::Composite(c(&x.values)?)))]),
        ValueDef::BitSequence(_) => v.clone(),
        ValueDef::Primitive(p) => match p {
            Primitive::Char(c) => w::s(&c.to_string()),
            Primitive::U128(n) => w::u(u64::try_from(*n).ok()? as u128),
            Primitive::I128(n) if *n >= 0 => w::u(u64::try_from(*n).ok()? as u128),
            Primitive::I128(n) => w::i(i64::try_from(*n).ok()? as i128),
            Primitive::U256(b) | Primitive::I256(b) => w::un(b.iter().map(|x| w::u(*x as u128)).collect()),
            _ => v.clone(),
        },
    })
}

pub fn same<X: PartialEq + Debug, E: Debug>(what: &str, got: Result<X, E>, want: &X) -> Result<(), String> {
    step();
    match got {
        Ok(x) if x == *want => Ok(()),
        x => Err(format!("{what} gives {x:?} instead of {want:?}")),
    }
}

pub fn j02(tier: Tier) -> Vec<Item> {
    let n = tier.pick(32, 256);
    let mut items = w::spread("values", n, trees, |v, rec| rec.case(|| showv(v), || j02_case(v)));
    items.extend(crate::s::sized(tier, |v, rec| rec.case(|| showv(v), || j02_case(v))));
    items.push(item("the reserved name", move |rec: &mut Rec| {
        let few = [w::un(vec![]), w::un(vec![w::b(true)]), w::un(vec![w::b(false), w::b(true)]), w::un(vec![w::u(1)]), w::nm(vec![]), w::b(true), w::bits("01"), w::nm(vec![("a", w::b(true))])];
        for x in &few {
            for k in 0..4 {
                for at in 0..=k {
                    for y in [w::u(1), w::un(vec![w::b(true)]), w::nm(vec![(MARK, w::un(vec![]))])] {
                        let names = ["a", MARK, "b"];
                        let mut fs: Vec<(&str, V)> = (0..k).map(|i| (names[i], y.clone())).collect();
                        fs.insert(at, (MARK, x.clone()));
                        let v = w::nm(fs);
                        for v in [v.clone(), w::un(vec![v.clone(), w::u(2)]), w::var("X", Composite::Unnamed(vec![v.clone()])), w::nm(vec![("m", v)])] {
                            rec.case(|| showv(&v), || reserved_case(&v));
                        }
                    }
                }
            }
        }
    }));
    items
}
/// Where the name of the bit marker comes first in a composite, reading it may be refused, or it
/// may be bits if there is nothing else; otherwise it is what it was.
/// However deeply nested it is.
fn read_json<X: serde::de::DeserializeOwned>(t: &str) -> Result<X, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_str(t);
    d.disable_recursion_limit();
    let v = X::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}
fn reserved_case(v: &V) -> Verdict {
    fn fits(v: &V, r: &V) -> bool {
        match (&v.value, &r.value) {
            (ValueDef::Composite(Composite::Named(xs)), ValueDef::BitSequence(b)) => {
                // (Like any list, the one of the bits may have names.)
                xs.len() == 1 && xs[0].0 == MARK && matches!(&xs[0].1.value, ValueDef::Composite(c) if c.values().cloned().eq(b.iter().map(w::b)))
            }
            (ValueDef::Composite(Composite::Named(xs)), ValueDef::Composite(Composite::Named(ys))) => xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| x.0 == y.0 && fits(&x.1, &y.1)),
            (ValueDef::Composite(Composite::Unnamed(xs)), ValueDef::Composite(Composite::Unnamed(ys))) => xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| fits(x, y)),
            (ValueDef::Variant(x), ValueDef::Variant(y)) => x.name == y.name && fits(&w::v(ValueDef::Composite(x.values.clone())), &w::v(ValueDef::Composite(y.values.clone()))),
            _ => v == r,
        }
    }
    fn marked(v: &V) -> bool {
        let c = |c: &Composite<()>| c.values().any(marked) || matches!(c, Composite::Named(xs) if xs.first().is_some_and(|x| x.0 == MARK));
        match &v.value {
            ValueDef::Composite(x) => c(x),
            ValueDef::Variant(x) => c(&x.values),
            _ => false,
        }
    }
    let mut out = "reserved name read";
    let json = serde_json::to_string(v).map_err(|e| e.to_string())?;
    let reads: [(&str, Result<V, String>); 4] = [
        ("value from value", Value::deserialize(v.clone()).map_err(|e| e.to_string())),
        ("value from definition", Value::deserialize(v.value.clone()).map_err(|e| e.to_string())),
        ("value with contexts", Value::deserialize(w::number(v)).map_err(|e| e.to_string())),
        ("definition from value", ValueDef::deserialize(v.clone()).map(w::v).map_err(|e| e.to_string())),
    ];
    let from_json  = read_json::<V>(&json);
    for (what, r) in reads {
        step();
        match r {
            Ok(r) if fits(v, &r) => {}
            Err(_) if marked(v) => out = "reserved name refused",
            Ok(r) => return Err(format!("{what}: {} is read as {}", showv(v), showv(&r))),
            Err(e) => return Err(format!("{what}: {e}")),
        }
    }
    if let Ok(r) = from_json {
        step();
        let again = serde_json::to_string(&r).map_err(|e| e.to_string())?;
        if again != json {
            return Err(format!("JSON {json} is read as {}, which is {again}", showv(&r)));
        }
    } else if !marked(v) {
        return Err(format!("JSON {json} cannot be read"));
    }
    Ok(out)
}
fn j02_case(v: &V) -> Verdict {
    let want = as_read(v);
    same("value from value", Value::deserialize(v.clone()), &want)?;
    same("value from value with contexts", Value::deserialize(w::number(v)), &want)?;
    same("definition from definition", ValueDef::deserialize(v.value.clone()), &want.value)?;
    same("value from definition", Value::deserialize(v.value.clone()), &want)?;
    same("definition from value", ValueDef::deserialize(v.clone()), &want.value)?;
    match (&v.value, &want.value) {
        (ValueDef::Composite(c), ValueDef::Composite(x)) => {
            same("composite from composite", Composite::deserialize(c.clone()), x)?;
            same("composite from value", Composite::deserialize(v.clone()), x)?;
            same("value from composite", Value::deserialize(c.clone()), &want)?;
        }
        (ValueDef::Variant(c), ValueDef::Variant(x)) => {
            same("variant from variant", Variant::deserialize(c.clone()), x)?;
            same("variant from value", Variant::deserialize(v.clone()), x)?;
            same("value from variant", Value::deserialize(c.clone()), &want)?;
        }
        (ValueDef::Primitive(c), _) => {
            // 256-bit numbers are handed over as bytes, so signedness gets lost
            let x = match c {
                Primitive::I256(b) => Primitive::U256(*b),
                x => x.clone(),
            };
            same("primitive from primitive", Primitive::deserialize(c.clone()), &x)?;
            same("primitive from value", Primitive::deserialize(v.clone()), &x)?;
            same("value from primitive", Value::deserialize(c.clone()), &want)?;
        }
        _ => {}
    }
    // to the crate's own serializer
    same("serializing to a value", to_value(v), &as_serialized(v, true))?;
    same("serializing the value with contexts", to_value(w::number(v)), &as_serialized(v, true))?;
    match &v.value {
        ValueDef::Variant(x) => {
            // a variant can be read back from the map it is serialized to
            let vals = match as_serialized(&w::v(ValueDef::Composite(x.values.clone())), false).value {
                ValueDef::Composite(c) => c,
                _ => unreachable!(),
            };
            let inner = Variant { name: x.name.clone(), values: vals };
            same("variant from its serialization", Variant::deserialize(to_value(v).map_err(|e| e.to_string())?), &inner)?;
        }
        ValueDef::BitSequence(_) => {
            same("bits from their serialization", Value::deserialize(to_value(v).map_err(|e| e.to_string())?), v)?;
        }
        _ => {}
    }
    // JSON
    let mut text = String::new();
    json(v, &mut text);
    same("JSON", serde_json::to_string(v), &text)?;
    same("JSON of the definition", serde_json::to_string(&v.value), &text)?;
    let Some(back) = from_json(v) else { return Ok("not within JSON's numbers") };
    same("reading the JSON", read_json::<V>(&text), &back)?;
    same("JSON of what was read", serde_json::to_string(&back), &text)?;
    let tree: serde_json::Value = read_json(&text).map_err(|e| format!("invalid JSON: {e}"))?;
    if serde_json::to_string(&tree).map(|t| t.len()).unwrap_or(0) == text.len() {
        // (a JSON tree has no duplicate names, and sorts them)
        step();
        let r: V = serde_json::from_value(tree.clone()).map_err(|e| format!("from a JSON tree: {e}"))?;
        let t2 = serde_json::to_value(&r).map_err(|e| format!("to a JSON tree: {e}"))?;
        if t2 != tree {
            return Err(format!("JSON tree {tree} is read as {} which is {t2}", showv(&r)));
        }
    }
    if let ValueDef::Variant(_) = &v.value {
        let got: Result<Variant<()>, _> = read_json(&text);
        let ValueDef::Composite(Composite::Named(m)) = back.value else { unreachable!() };
        let mut m = m.into_iter();
        let (Some((_, n)), Some((_, vals))) = (m.next(), m.next()) else { unreachable!() };
        let ValueDef::Composite(values) = vals.value else { unreachable!() };
        same("variant from JSON", got, &Variant { name: n.as_str().unwrap().to_string(), values })?;
    }
    Ok(match &v.value {
        ValueDef::Composite(_) => "composite",
        ValueDef::Variant(_) => "variant",
        ValueDef::BitSequence(_) => "bits",
        ValueDef::Primitive(_) => "primitive",
    })
}

// ------------------------------------------------------------------ J03

#[derive(Debug, PartialEq, Deserialize)]
struct Nt<X>(X);
#[derive(Debug, PartialEq, Deserialize)]
struct Field<X> {
    f: X,
}
#[derive(Debug, PartialEq, Deserialize)]
enum En<X> {
    B(X),
    T(X, X),
    S { x: X },
}

/// All the places a number can be read from, with what it must be.
fn reads<X>(name: &'static str, p: &Primitive, rec: &mut Rec)
where
    X: TryFrom<u128> + TryFrom<i128> + for<'de> Deserialize<'de> + PartialEq + Debug + Copy + 'static,
{
    rec.case(
        || format!("{name} from {}", showv(&w::p(p.clone()))),
        || {
            let want: Option<X> = match p {
                Primitive::U128(n) => X::try_from(*n).ok(),
                Primitive::I128(n) => X::try_from(*n).ok(),
                _ => None,
            };
            fn chk<Y: PartialEq + Debug>(what: &str, got: Result<Y, DeserializerError>, want: Option<Y>) -> Result<(), String> {
                step();
                match (&got, &want) {
                    (Ok(a), Some(b)) if a == b => Ok(()),
                    (Err(_), None) => Ok(()),
                    _ => Err(format!("{what} gives {:?} instead of {want:?}", got.map_err(err))),
                }
            }
            let v = || w::p(p.clone());
            chk("the number", from_value::<(), X>(v()), want)?;
            chk("the number with context", from_value::<u32, X>(w::number(&v())), want)?;
            chk("its definition", X::deserialize(v().value), want)?;
            chk("the primitive", X::deserialize(p.clone()), want)?;
            chk("a list", from_value::<(), Vec<X>>(w::un(vec![v(), v()])), want.map(|x| vec![x, x]))?;
            chk("an array", from_value::<(), [X; 1]>(w::un(vec![v()])), want.map(|x| [x]))?;
            chk("a tuple", from_value::<(), (X, X)>(w::nm(vec![("a", v()), ("b", v())])), want.map(|x| (x, x)))?;
            chk("a tuple from a variant", from_value::<(), (X, X)>(w::var("a", w::cu(vec![v(), v()]))), want.map(|x| (x, x)))?;
            chk("an option", from_value::<(), Option<X>>(w::var("Some", w::cu(vec![v()]))), want.map(Some))?;
            chk("a field", from_value::<(), Field<X>>(w::nm(vec![("f", v())])), want.map(|f| Field { f }))?;
            chk("a newtype from the number itself", from_value::<(), Nt<X>>(v()), want.map(Nt))?;
            chk("a newtype", from_value::<(), Nt<X>>(w::un(vec![v()])), want.map(Nt))?;
            chk("nested newtypes", from_value::<(), Nt<Nt<X>>>(w::un(vec![w::un(vec![v()])])), want.map(|x| Nt(Nt(x))))?;
            chk("a newtype variant", from_value::<(), En<X>>(w::var("B", w::cu(vec![v()]))), want.map(En::B))?;
            chk("a tuple variant", from_value::<(), En<X>>(w::var("T", w::cu(vec![v(), v()]))), want.map(|x| En::T(x, x)))?;
            chk("a struct variant", from_value::<(), En<X>>(w::var("S", w::cn(vec![("x", v())]))), want.map(|x| En::S { x }))?;
            let m: BTreeMap<String, X> = want.iter().map(|x| ("k".to_string(), *x)).collect();
            chk("a map", from_value::<(), BTreeMap<String, X>>(w::nm(vec![("k", v())])), want.map(|_| m))?;
            Ok(match (want.is_some(), p) {
                (true, Primitive::U128(_)) => "unsigned fits",
                (true, _) => "signed fits",
                (false, Primitive::U128(_) | Primitive::I128(_)) => "refused, out of range",
                _ => "refused, not a number",
            })
        },
    );
}

fn all_reads(p: &Primitive, rec: &mut Rec) {
    reads::<u8>("u8", p, rec);
    reads::<u16>("u16", p, rec);
    reads::<u32>("u32", p, rec);
    reads::<u64>("u64", p, rec);
    reads::<u128>("u128", p, rec);
    reads::<usize>("usize", p, rec);
    reads::<i8>("i8", p, rec);
    reads::<i16>("i16", p, rec);
    reads::<i32>("i32", p, rec);
    reads::<i64>("i64", p, rec);
    reads::<i128>("i128", p, rec);
    reads::<isize>("isize", p, rec);
}

fn builds<X>(name: &'static str, n: X, rec: &mut Rec, want: Primitive)
where
    X: Serialize + Copy + Debug + Into<Primitive> + Into<ValueDef<()>> + Into<ValueDef<u32>> + Into<V> + 'static,
{
    rec.case(
        || format!("value of {n:?}{name}"),
        || {
            let def = ValueDef::Primitive(want.clone());
            let v = w::p(want.clone());
            same("into a primitive", Ok::<Primitive, ()>(n.into()), &want)?;
            same("into a definition", Ok::<ValueDef<()>, ()>(n.into()), &def)?;
            same("into a definition with context", Ok::<ValueDef<u32>, ()>(n.into()), &ValueDef::Primitive(want.clone()))?;
            same("into a value", Ok::<V, ()>(n.into()), &v)?;
            same("serializing", to_value(n), &v)?;
            same("in a list", Ok::<V, ()>(vec![n, n].into()), &w::un(vec![v.clone(), v.clone()]))?;
            same("in a named list", Ok::<V, ()>(vec![("a", n)].into()), &w::nm(vec![("a", v.clone())]))?;
            Ok("built")
        },
    );
}

/// A byte buffer, read the way `serde_bytes` does.
#[derive(Debug, PartialEq)]
struct ByteBuf(Vec<u8>);
impl<'de> Deserialize<'de> for ByteBuf {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match (&DT::Bytes).deserialize(d)? {
            DD::Bytes(b) => Ok(ByteBuf(b)),
            _ => unreachable!(),
        }
    }
}
#[derive(Debug, PartialEq)]
struct ByteSlice(Vec<u8>);
impl<'de> Deserialize<'de> for ByteSlice {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl serde::de::Visitor<'_> for Vis {
            type Value = ByteSlice;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<ByteSlice, E> {
                Ok(ByteSlice(b.to_vec()))
            }
        }
        d.deserialize_bytes(Vis)
    }
}

pub fn j03(tier: Tier) -> Vec<Item> {
    let mut out = vec![];
    for k in 0..8usize {
        out.push(item(format!("read unsigned {k}"), move |rec| w::boundary().0.iter().skip(k).step_by(8).for_each(|n| all_reads(&Primitive::U128(*n), rec))));
        out.push(item(format!("read signed {k}"), move |rec| w::boundary().1.iter().skip(k).step_by(8).for_each(|n| all_reads(&Primitive::I128(*n), rec))));
    }
    // every small number, which covers the 8 and 16 bit types completely
    let lim: i128 = tier.pick(300, 66_000);
    for k in 0..8i128 {
        out.push(item(format!("small numbers {k}"), move |rec| {
            let mut n = -lim + k;
            while n <= lim {
                all_reads(&Primitive::I128(n), rec);
                if n >= 0 {
                    all_reads(&Primitive::U128(n as u128), rec);
                }
                n += 8;
            }
        }));
    }
    out.push(item("other kinds", |rec| {
        for v in [w::b(true), w::b(false), w::ch('7'), w::ch('\0'), w::s("7"), w::s(""), w::p(Primitive::U256([0; 32])), w::p(Primitive::I256([1; 32]))] {
            let ValueDef::Primitive(p) = v.value else { unreachable!() };
            all_reads(&p, rec);
        }
        for v in [w::un(vec![]), w::nm(vec![]), w::var("A", w::cu(vec![])), w::bits("1"), w::bits("")] {
            rec.case(
                || format!("integers from {}", showv(&v)),
                || {
                    steps(4);
                    if let Ok(n) = from_value::<(), u8>(v.clone()) {
                        return Err(format!("reads as the number {n}"));
                    }
                    if let Ok(n) = from_value::<(), i128>(v.clone()) {
                        return Err(format!("reads as the number {n}"));
                    }
                    if let Ok(n) = from_value::<(), u64>(v.clone()) {
                        return Err(format!("reads as the number {n}"));
                    }
                    if let Ok(n) = from_value::<(), f64>(v.clone()) {
                        return Err(format!("reads as the float {n}"));
                    }
                    Ok("refused, not a number")
                },
            );
        }
    }));
    out.push(item("bytes", |rec| {
        let xs = [w::u(0), w::u(1), w::u(255), w::u(256), w::u(257), w::u(1 << 64), w::u(u128::MAX), w::i(1), w::i(-1), w::b(true), w::ch('a'), w::un(vec![])];
        for n in 0..=3usize {
            for list in crate::tys::cart(&vec![xs.to_vec(); n], usize::MAX) {
                rec.case(
                    || format!("bytes from {}", showv(&w::un(list.clone()))),
                    || {
                        steps(4);
                        // unsigned numbers that fit
                        let want: Option<Vec<u8>> = list.iter().map(|x| x.as_u128().and_then(|n| u8::try_from(n).ok())).collect();
                        let a = from_value::<(), ByteBuf>(w::un(list.clone())).map(|b| b.0);
                        let b = from_value::<(), ByteSlice>(w::un(list.clone())).map(|b| b.0);
                        let c = Composite::Unnamed(list.clone());
                        let c = ByteBuf::deserialize(c).map(|b| b.0);
                        for (what, x) in [("byte buffer", a), ("bytes", b), ("byte buffer from the composite", c)] {
                            match (&x, &want) {
                                (Ok(x), Some(w)) if x == w => {}
                                (Err(_), None) => {}
                                _ => return Err(format!("{what}: {:?} instead of {want:?}", x.map_err(err))),
                            }
                        }
                        Ok(if want.is_some() { "bytes" } else { "refused, not bytes" })
                    },
                );
            }
        }
    }));
    // one number that may not fit, anywhere in lists of every size
    for part in 0..8usize {
        out.push(item(format!("numbers in lists {part}"), move |rec| {
            let (us, is) = w::boundary();
            let odd: Vec<V> = us.iter().filter(|n| **n > 100).map(|n| w::u(*n)).chain(is.iter().filter(|n| !(0..100).contains(*n)).map(|n| w::i(*n))).collect();
            for n in crate::big::lengths(20, &[6, 7, 8, 10]).into_iter().filter(|n| *n > 0) {
                for (k, x) in odd.iter().enumerate().skip(part).step_by(8) {
                    if n > 40 && (k / 8 + n) % rec.tier.pick(9, 1) != 0 {
                        continue;
                    }
                    for at in [0, n / 2, n - 1] {
                        let mut list: Vec<V> = (0..n).map(|k| w::u(k as u128 % 100)).collect();
                        list[at] = x.clone();
                        rec.case(
                            || format!("lists of {n} with {} at {at}", showv(x)),
                            || {
                                fn same<X>(what: &str, list: &[V]) -> Result<bool, String>
                                where
                                    X: TryFrom<u128> + TryFrom<i128> + for<'de> Deserialize<'de> + PartialEq + Debug,
                                {
                                    step();
                                    let want: Option<Vec<X>> = list
                                        .iter()
                                        .map(|x| match x.value {
                                            ValueDef::Primitive(Primitive::U128(n)) => X::try_from(n).ok(),
                                            ValueDef::Primitive(Primitive::I128(n)) => X::try_from(n).ok(),
                                            _ => None,
                                        })
                                        .collect();
                                    let got = from_value::<(), Vec<X>>(w::un(list.to_vec()));
                                    match (&got, &want) {
                                        (Ok(a), Some(b)) if a == b => Ok(true),
                                        (Err(_), None) => Ok(false),
                                        _ => Err(format!("as {what}: {:?} instead of {want:?}", got.map_err(err))),
                                    }
                                }
                                let mut fits = 0;
                                fits += same::<u8>("u8", &list)? as u32;
                                fits += same::<i8>("i8", &list)? as u32;
                                fits += same::<u16>("u16", &list)? as u32;
                                fits += same::<u32>("u32", &list)? as u32;
                                fits += same::<i64>("i64", &list)? as u32;
                                fits += same::<u128>("u128", &list)? as u32;
                                fits += same::<i128>("i128", &list)? as u32;
                                let want: Option<Vec<u8>> = list.iter().map(|x| x.as_u128().and_then(|n| u8::try_from(n).ok())).collect();
                                for (what, x) in [("byte buffer", from_value::<(), ByteBuf>(w::un(list.clone())).map(|b| b.0)), ("bytes", from_value::<(), ByteSlice>(w::un(list.clone())).map(|b| b.0))] {
                                    step();
                                    match (&x, &want) {
                                        (Ok(x), Some(w)) if x == w => {}
                                        (Err(_), None) => {}
                                        _ => return Err(format!("{what}: {:?} instead of {want:?}", x.map_err(err))),
                                    }
                                }
                                Ok(if fits > 0 { "list, fits some" } else { "list, fits none" })
                            },
                        );
                    }
                }
            }
        }));
    }
    out.push(item("build", |rec| {
        let (us, is) = w::boundary();
        for n in &us {
            builds("u128", *n, rec, Primitive::U128(*n));
            if let Ok(m) = u64::try_from(*n) {
                builds("u64", m, rec, Primitive::U128(*n));
            }
            if let Ok(m) = usize::try_from(*n) {
                builds("usize", m, rec, Primitive::U128(*n));
            }
            if let Ok(m) = u32::try_from(*n) {
                builds("u32", m, rec, Primitive::U128(*n));
            }
        }
        for n in &is {
            builds("i128", *n, rec, Primitive::I128(*n));
            if let Ok(m) = i64::try_from(*n) {
                builds("i64", m, rec, Primitive::I128(*n));
            }
            if let Ok(m) = isize::try_from(*n) {
                builds("isize", m, rec, Primitive::I128(*n));
            }
            if let Ok(m) = i32::try_from(*n) {
                builds("i32", m, rec, Primitive::I128(*n));
            }
        }
        for n in 0..=u16::MAX {
            builds("u16", n, rec, Primitive::U128(n as u128));
            builds("i16", n as i16, rec, Primitive::I128(n as i16 as i128));
        }
        for n in 0..=u8::MAX {
            builds("u8", n, rec, Primitive::U128(n as u128));
            builds("i8", n as i8, rec, Primitive::I128(n as i8 as i128));
        }
        for x in crate::j3::floats(64).into_iter().chain([1e300]) {
            rec.case(
                || format!("float {x}"),
                || {
                    steps(2);
                    match (to_value(x), to_value(x as f32)) {
                        (Err(_), Err(_)) => Ok("floats refused"),
                        (a, b) => Err(format!("a float was converted: {a:?} {b:?}")),
                    }
                },
            );
        }
    }));
    out
}

// ------------------------------------------------------------------ J04

fn j04_case(t: &DT, d: &DD, id: Option<Id>, types: &scale_info::PortableRegistry) -> Verdict {
    step();
    let v = to_value(With(t, d)).map_err(|e| format!("does not convert to a value: {e}"))?;
    let want = value_of(t, d);
    if v != want {
        return Err(format!("converts to {}", showv(&v)));
    }
    let Some(id) = id else { return Ok("structure") };
    steps(2);
    let mut layout = vec![];
    scale_of(t, d, &mut layout);
    let mut got = vec![];
    scale::encode_as_type(&v, id, types, &mut got).map_err(|e| format!("{} does not encode: {e}", showv(&v)))?;
    if got != layout {
        return Err(format!("encodes to {} instead of {}", hex(&got), hex(&layout)));
    }
    let cur = &mut &*layout;
    let dec = scale::decode_as_type(cur, id, types).map_err(|e| format!("{} does not decode: {e}", hex(&layout)))?;
    if !cur.is_empty() {
        return Err(format!("decoding leaves {} bytes", cur.len()));
    }
    step();
    match t.deserialize(dec.clone()) {
        Ok(x) if x == *d => Ok("structure and layout"),
        x => Err(format!("decoded as {}, which converts to {x:?} instead of {d:?}", showv(&dec))),
    }
}

pub fn j04(tier: Tier) -> Vec<Item> {
    let mut out = chunks(tier, |t, rec| {
        let mut r = Reg::new();
        let id = describe(t, &mut r);
        let types = r.portable();
        for d in data(t, rec.tier) {
            rec.case(|| showd(t, &d), || j04_case(t, &d, id, &types));
        }
    });
    out.extend(long(|t, d| {
        let mut r = Reg::new();
        let id = describe(t, &mut r);
        j04_case(t, d, id, &r.portable())
    }));
    out.push(item("derived types", |rec| derived(rec, false)));
    out.push(item("map keys", |rec| {
        fn key<K: Serialize + Ord + Clone + Debug>(rec: &mut Rec, k: K, want: Option<&str>) {
            rec.case(
                || format!("map with key {k:?}"),
                || {
                    step();
                    let m = BTreeMap::from([(k.clone(), 1u8)]);
                    match (to_value(m), want) {
                        (Ok(v), Some(n)) if v == w::nm(vec![(n, w::u(1))]) => Ok("map key taken"),
                        (Err(_), None) => Ok("map key refused"),
                        (x, _) => Err(format!("gives {x:?} instead of a name {want:?}")),
                    }
                },
            );
        }
        key(rec, "a".to_string(), Some("a"));
        key(rec, "", Some(""));
        for c in (0..0x110000).filter_map(char::from_u32).filter(|c| (*c as u32) < 0x600 || crate::s::at_class_edge(*c)) {
            key(rec, c, Some(&c.to_string()));
        }
        key(rec, 1u8, None);
        key(rec, -1i64, None);
        key(rec, true, None);
        key(rec, (), None);
        key(rec, vec!["a"], None);
        key(rec, ("a", "b"), None);
        key(rec, Some("a"), None);
    }));
    out
}
