//! serde properties J05-J07: foreign sources, foreign types, foreign sinks.
use crate::dyn_serde::*;
use crate::e::{mutants, pool};
use crate::engine::*;
use crate::j::{as_read, err, MARK};
use crate::tys::*;
use crate::vals as w;
use crate::vals::V;
use scale_value::{Composite, Primitive, ValueDef, Variant};
use serde::de::DeserializeSeed;

// ------------------------------------------------------------------ J06

fn comp(c: &Composite<()>) -> V {
    w::v(ValueDef::Composite(c.clone()))
}
/// The parts of a composite or of a variant.
fn parts(v: &V) -> Option<&Composite<()>> {
    match &v.value {
        ValueDef::Composite(c) => Some(c),
        ValueDef::Variant(x) => Some(&x.values),
        _ => None,
    }
}
fn single(c: &Composite<()>) -> Option<&V> {
    match c {
        Composite::Unnamed(xs) if xs.len() == 1 => Some(&xs[0]),
        _ => None,
    }
}
fn bits_as_map(v: &V) -> Option<Composite<()>> {
    match &v.value {
        ValueDef::BitSequence(b) => Some(w::cn(vec![(MARK, w::un(b.iter().map(w::b).collect()))])),
        _ => None,
    }
}

/// Is the datum what the value says, read as that type? (Everything the value holds is in the
/// datum, with nothing made up, up to names of lists, names of variants read as lists, surplus
/// named fields, and layers around newtypes.)
fn faithful(t: &DT, d: &DD, v: &V) -> bool {
    let wide = |b: &[u8]| match &v.value {
        ValueDef::Primitive(Primitive::U256(x) | Primitive::I256(x)) => x[..] == *b,
        _ => false,
    };
    match (t, d) {
        (DT::Any, DD::Any(x)) => *x == as_read(v),
        (DT::Bool, DD::Bool(b)) => *v == w::b(*b),
        (DT::Int(_), DD::U(n)) => match &v.value {
            ValueDef::Primitive(Primitive::U128(m)) => m == n,
            ValueDef::Primitive(Primitive::I128(m)) => u128::try_from(*m) == Ok(*n),
            _ => false,
        },
        (DT::Int(_), DD::I(n)) => match &v.value {
            ValueDef::Primitive(Primitive::U128(m)) => i128::try_from(*m) == Ok(*n),
            ValueDef::Primitive(Primitive::I128(m)) => m == n,
            _ => false,
        },
        (DT::Char, DD::Char(c)) => *v == w::ch(*c) || *v == w::s(&c.to_string()),
        (DT::Str, DD::Str(x)) => *v == w::s(x) || (x.chars().count() == 1 && *v == w::ch(x.chars().next().unwrap())) || wide(x.as_bytes()),
        (DT::Bytes, DD::Bytes(b)) => {
            wide(b)
                || parts(v).is_some_and(|c| c.len() == b.len() && c.values().zip(b).all(|(x, b)| *x == w::u(*b as u128)))
                || matches!(&v.value, ValueDef::Primitive(Primitive::String(s)) if s.as_bytes() == b)
        }
        (DT::Opt(_), DD::None) => *v == w::var("None", w::cu(vec![])) || *v == w::var("None", w::cn(vec![])),
        (DT::Opt(t), DD::Some(d)) => matches!(&v.value, ValueDef::Variant(x) if x.name == "Some" && x.values.len() == 1 && faithful(t, d, x.values.values().next().unwrap())),
        (DT::Unit | DT::UnitStruct, DD::Unit) => parts(v).is_some_and(|c| c.is_empty()),
        (DT::Newtype(t), DD::Wrap(d)) => match &v.value {
            ValueDef::Composite(c) => content(t, d, c),
            _ => faithful(t, d, v),
        },
        (DT::Seq(t), DD::List(xs)) => {
            parts(v).is_some_and(|c| c.len() == xs.len() && c.values().zip(xs).all(|(v, x)| faithful(t, x, v)))
                || wide(&xs.iter().map_while(|x| if let DD::U(n) = x { u8::try_from(*n).ok() } else { None }).collect::<Vec<u8>>())
        }
        (DT::Tuple(ts) | DT::TupleStruct(ts), DD::List(xs)) => parts(v).is_some_and(|c| listed(ts, xs, c)),
        (DT::Map(t) | DT::CharMap(t), DD::Map(xs)) => {
            let bits = bits_as_map(v);
            match parts(v).or(bits.as_ref()) {
                Some(Composite::Named(c)) => c.len() == xs.len() && c.iter().zip(xs).all(|((k, v), (n, x))| k == n && faithful(t, x, v)),
                _ => false,
            }
        }
        (DT::Struct(n, ts), DD::List(xs)) => {
            let bits = bits_as_map(v);
            parts(v).or(bits.as_ref()).is_some_and(|c| fields(n, ts, xs, c))
        }
        (DT::Enum(n, vs), DD::Var(k, x)) => {
            let ValueDef::Variant(y) = &v.value else {
                // (a unit variant may well be given by its name)
                return *v == w::s(n[*k]) && matches!(vs[*k], VT::Unit);
            };
            y.name == n[*k]
                && match (&vs[*k], &**x) {
                    (VT::Unit, _) => y.values.is_empty(),
                    (VT::Newtype(t), x) => content(t, x, &y.values),
                    (VT::Tuple(ts), DD::List(xs)) => listed(ts, xs, &y.values),
                    (VT::Struct(m, ts), DD::List(xs)) => fields(m, ts, xs, &y.values),
                    _ => false,
                }
        }
        _ => false,
    }
}
/// The inside of a newtype: its only item, or the whole.
fn content(t: &DT, d: &DD, c: &Composite<()>) -> bool {
    single(c).is_some_and(|y| faithful(t, d, y)) || faithful(t, d, &comp(c))
}
fn listed(ts: &[DT], xs: &[DD], c: &Composite<()>) -> bool {
    c.len() == ts.len() && xs.len() == ts.len() && c.values().zip(ts).zip(xs).all(|((v, t), x)| faithful(t, x, v))
}
fn fields(n: Names, ts: &[DT], xs: &[DD], c: &Composite<()>) -> bool {
    match c {
        Composite::Unnamed(_) => listed(ts, xs, c),
        Composite::Named(c) => n.iter().zip(ts).zip(xs).all(|((n, t), x)| {
            let mut of = c.iter().filter(|(k, _)| k == n);
            match (of.next(), of.next()) {
                (Some((_, v)), None) => faithful(t, x, v),
                (None, _) => matches!(t, DT::Opt(_)) && *x == DD::None,
                _ => false,
            }
        }),
    }
}

/// What reading must give, where the rules leave no room: each kind from the same kind, lists from
/// anything with items, fields by name or else by position, newtypes with or without their layer.
fn must(t: &DT, v: &V) -> Option<DD> {
    let prim = match &v.value {
        ValueDef::Primitive(p) => Some(p),
        _ => None,
    };
    Some(match t {
        DT::Any => DD::Any(as_read(v)),
        DT::Bool => DD::Bool(v.as_bool()?),
        DT::Int(p) => {
            let (bits, signed) = int_bits(*p).unwrap();
            if signed {
                let n: i128 = match prim? {
                    Primitive::U128(n) => i128::try_from(*n).ok()?,
                    Primitive::I128(n) => *n,
                    _ => return None,
                };
                if bits < 128 && (n >> (bits - 1) != 0 && n >> (bits - 1) != -1) {
                    return None;
                }
                DD::I(n)
            } else {
                let n: u128 = match prim? {
                    Primitive::U128(n) => *n,
                    Primitive::I128(n) => u128::try_from(*n).ok()?,
                    _ => return None,
                };
                if bits < 128 && n >> bits != 0 {
                    return None;
                }
                DD::U(n)
            }
        }
        DT::Char => match prim? {
            Primitive::Char(c) => DD::Char(*c),
            _ => return None,
        },
        DT::Str => match prim? {
            Primitive::String(s) => DD::Str(s.clone()),
            _ => return None,
        },
        DT::Bytes => match &v.value {
            ValueDef::Composite(c) => DD::Bytes(
                c.values()
                    .map(|x| match x.value {
                        ValueDef::Primitive(Primitive::U128(n)) => u8::try_from(n).ok(),
                        _ => None,
                    })
                    .collect::<Option<_>>()?,
            ),
            _ => return None,
        },
        DT::Opt(t) => match &v.value {
            ValueDef::Variant(Variant { name, values: Composite::Unnamed(xs) }) if name == "None" && xs.is_empty() => DD::None,
            ValueDef::Variant(Variant { name, values: Composite::Unnamed(xs) }) if name == "Some" && xs.len() == 1 => DD::Some(Box::new(must(t, &xs[0])?)),
            _ => return None,
        },
        DT::Unit | DT::UnitStruct => {
            if !parts(v)?.is_empty() {
                return None;
            }
            DD::Unit
        }
        DT::Newtype(t) => DD::Wrap(Box::new(match &v.value {
            ValueDef::Composite(c) => must_content(t, c)?,
            // bits are handed to nothing but values
            ValueDef::BitSequence(_) => return None,
            _ => must(t, v)?,
        })),
        DT::Seq(t) => DD::List(parts(v)?.values().map(|v| must(t, v)).collect::<Option<_>>()?),
        DT::Tuple(ts) | DT::TupleStruct(ts) => DD::List(must_list(ts, parts(v)?)?),
        DT::Map(t) => match parts(v)? {
            Composite::Named(xs) => DD::Map(xs.iter().map(|(n, v)| Some((n.clone(), must(t, v)?))).collect::<Option<_>>()?),
            _ => return None,
        },
        DT::CharMap(t) => match parts(v)? {
            Composite::Named(xs) if xs.iter().all(|x| x.0.chars().count() == 1) => DD::Map(xs.iter().map(|(n, v)| Some((n.clone(), must(t, v)?))).collect::<Option<_>>()?),
            _ => return None,
        },
        DT::Struct(n, ts) => DD::List(must_fields(n, ts, parts(v)?)?),
        DT::Enum(n, vs) => {
            let ValueDef::Variant(x) = &v.value else { return None };
            let k = n.iter().position(|n| *n == x.name)?;
            DD::Var(
                k,
                Box::new(match &vs[k] {
                    VT::Unit if x.values.is_empty() => DD::Unit,
                    VT::Unit => return None,
                    VT::Newtype(t) => must_content(t, &x.values)?,
                    VT::Tuple(ts) => DD::List(must_list(ts, &x.values)?),
                    VT::Struct(m, ts) => DD::List(must_fields(m, ts, &x.values)?),
                }),
            )
        }
    })
}
fn must_content(t: &DT, c: &Composite<()>) -> Option<DD> {
    if matches!(t, DT::Any) {
        // nothing tells whether the layer belongs to the value
        return None;
    }
    match single(c) {
        // an only item is the content, unless it can't be while the whole can
        Some(y) => must(t, y).or_else(|| if matches!(y.value, ValueDef::Primitive(_)) && takes_list(t) { must(t, &comp(c)) } else { None }),
        None => must(t, &comp(c)),
    }
}
fn takes_list(t: &DT) -> bool {
    matches!(t, DT::Bytes | DT::Seq(_) | DT::Tuple(_) | DT::TupleStruct(_))
}
fn must_list(ts: &[DT], c: &Composite<()>) -> Option<Vec<DD>> {
    if c.len() != ts.len() {
        return None;
    }
    c.values().zip(ts).map(|(v, t)| must(t, v)).collect()
}
fn must_fields(n: Names, ts: &[DT], c: &Composite<()>) -> Option<Vec<DD>> {
    match c {
        Composite::Unnamed(_) => must_list(ts, c),
        Composite::Named(xs) => n
            .iter()
            .zip(ts)
            .map(|(n, t)| {
                let mut of = xs.iter().filter(|(k, _)| k == n);
                match (of.next(), of.next()) {
                    (Some((_, v)), None) => must(t, v),
                    (None, _) if matches!(t, DT::Opt(_)) => Some(DD::None),
                    _ => None,
                }
            })
            .collect(),
    }
}

fn read_as(t: &DT, v: &V) -> Verdict {
    let must = must(t, v);
    let judge = |what: &str, got: Result<DD, String>| -> Result<bool, String> {
        step();
        match (got, &must) {
            (Ok(d), Some(m)) if d != *m => Err(format!("{what} is read as {d:?} instead of {m:?}")),
            (Ok(d), _) if !faithful(t, &d, v) => Err(format!("{what} does not fit, but is read as {d:?}")),
            (Ok(_), _) => Ok(true),
            (Err(e), Some(m)) => Err(format!("{what} is refused ({e}) although it is {m:?}")),
            (Err(_), None) => Ok(false),
        }
    };
    let a = judge("the value", t.deserialize(v.clone()).map_err(err))?;
    let b = judge("the value with contexts", t.deserialize(w::number(v)).map_err(err))?;
    let c = judge("the definition", t.deserialize(v.value.clone()).map_err(err))?;
    if a != b || a != c {
        return Err(format!("value, value with contexts and definition are not treated alike: {a} {b} {c}"));
    }
    // the parts on their own
    match v.value.clone() {
        ValueDef::Composite(x) => judge("the composite", t.deserialize(x).map_err(err))?,
        ValueDef::Variant(x) => judge("the variant", t.deserialize(x).map_err(err))?,
        ValueDef::Primitive(x) => judge("the primitive", t.deserialize(x).map_err(err))?,
        _ => a,
    };
    Ok(match (a, must.is_some()) {
        (true, true) => "read, as it must be",
        (true, false) => "read, as it may be",
        _ => "refused",
    })
}

/// Reads the datum's own value, and that with a part too many, one too few, or one that is another.
fn read_damaged(t: &DT, d: &DD) -> Verdict {
    let v = value_of(t, d);
    let verdict = read_as(t, &v)?;
    fn inner(v: &mut V) -> Option<&mut Composite<()>> {
        // through a layer of the type around
        let layered = matches!(&v.value, ValueDef::Composite(Composite::Named(xs)) if xs.len() == 2 && xs[0].0 == "x" && matches!(&xs[0].1.value, ValueDef::Variant(s) if s.name == "Some" && matches!(s.values, Composite::Unnamed(_))));
        if layered {
            return match &mut v.value {
                ValueDef::Composite(Composite::Named(xs)) => match &mut xs[0].1.value {
                    ValueDef::Variant(Variant { values: Composite::Unnamed(ys), .. }) => inner(ys.first_mut()?),
                    _ => None,
                },
                _ => None,
            };
        }
        match &mut v.value {
            ValueDef::Composite(c) => Some(c),
            ValueDef::Variant(c) => Some(&mut c.values),
            _ => None,
        }
    }
    let n = inner(&mut v.clone()).map_or(0, |c| c.len());
    for at in [0, n / 2, n.saturating_sub(1)] {
        for damage in 0..5 {
            let mut x = v.clone();
            let Some(c) = inner(&mut x) else { continue };
            match c {
                Composite::Named(xs) if at < xs.len() => match damage {
                    0 => drop(xs.remove(at)),
                    1 => xs.insert(at, ("surplus".into(), w::u(1 << 70))),
                    2 => xs[at].1 = w::u(1 << 70),
                    3 => xs[at].1 = w::i(-1),
                    _ => xs.insert(at, xs[at].clone()),
                },
                Composite::Unnamed(xs) if at < xs.len() => match damage {
                    0 => drop(xs.remove(at)),
                    1 => xs.insert(at, w::u(1 << 70)),
                    2 => xs[at] = w::u((1 << 70) + 256),
                    3 => xs[at] = w::i(-1),
                    _ => xs.insert(at, xs[at].clone()),
                },
                _ => continue,
            }
            if n < 2000 || (at == n / 2 && damage == 2) {
                read_as(t, &x).map_err(|e| format!("damaged ({damage}) at {at}: {e}"))?;
            }
        }
    }
    Ok(verdict)
}

/// Values which list, name, wrap and label the same things differently.
fn restyled(v: &V) -> Vec<V> {
    let mut out = vec![w::un(vec![v.clone()]), w::nm(vec![("x", v.clone())]), w::var("Some", w::cu(vec![v.clone()])), w::var("None", w::cn(vec![("p", v.clone())]))];
    if let Some(c) = parts(v) {
        let mut both = vec![];
        match c {
            Composite::Named(xs) => {
                both.push(Composite::Unnamed(xs.iter().map(|x| x.1.clone()).collect()));
                let mut rev = xs.clone();
                rev.reverse();
                both.push(Composite::Named(rev));
                for at in [0, xs.len() / 2, xs.len()] {
                    let mut more = xs.clone();
                    more.insert(at, ("surplus".into(), w::u(300)));
                    both.push(Composite::Named(more));
                }
            }
            Composite::Unnamed(xs) => {
                both.push(Composite::Named(xs.iter().enumerate().map(|(k, x)| (format!("n{k}"), x.clone())).collect()));
                for at in [0, xs.len()] {
                    let mut more = xs.clone();
                    more.insert(at, xs.first().cloned().unwrap_or(w::u(300)));
                    both.push(Composite::Unnamed(more));
                }
            }
        }
        both.push(c.clone());
        for c in both {
            out.push(comp(&c));
            out.push(w::var("A", c.clone()));
            out.push(w::var("D", c.clone()));
            out.push(w::un(vec![comp(&c)]));
        }
    }
    out
}
/// The value with one of its parts (or itself) restyled.
fn restyles(v: &V, depth: usize) -> Vec<V> {
    let mut out = restyled(v);
    if depth == 0 {
        return out;
    }
    let mut put = |c: &Composite<()>, back: &dyn Fn(Composite<()>) -> V| {
        for k in 0..c.len().min(3) {
            for y in restyles(c.values().nth(k).unwrap(), depth - 1) {
                let mut c = c.clone();
                *c.values_mut_at(k) = y;
                out.push(back(c));
            }
        }
    };
    match &v.value {
        ValueDef::Composite(c) => put(c, &|c| comp(&c)),
        ValueDef::Variant(x) => put(&x.values, &|c| w::var(&x.name, c)),
        _ => {}
    }
    out
}
trait At {
    fn values_mut_at(&mut self, k: usize) -> &mut V;
}
impl At for Composite<()> {
    fn values_mut_at(&mut self, k: usize) -> &mut V {
        match self {
            Composite::Named(xs) => &mut xs[k].1,
            Composite::Unnamed(xs) => &mut xs[k],
        }
    }
}

fn read_types(tier: Tier) -> Vec<DT> {
    let mut ts = crate::j::types(tier);
    ts.push(DT::Any);
    let l1 = apply(&DT::Any);
    ts.extend(l1.iter().flat_map(apply));
    ts.extend(l1);
    ts
}

pub fn j06(tier: Tier) -> Vec<Item> {
    let n = tier.pick(64, 512);
    let mut out: Vec<Item> = (0..n)
        .map(|k| {
            item(format!("types {k} mod {n}"), move |rec: &mut Rec| {
                let foreign = pool(1);
                for (j, t) in read_types(rec.tier).iter().enumerate().skip(k).step_by(n) {
                    let mut seen = std::collections::HashSet::new();
                    let mut go = |v: &V, rec: &mut Rec| {
                        let s = showv(v);
                        if seen.insert(s.clone()) {
                            rec.case(|| format!("{} from {s}", show(t)), || read_as(t, v));
                        }
                    };
                    for d in domain(t, false, rec.tier.pick(5, 12)) {
                        let v = value_of(t, &d);
                        go(&v, rec);
                        for y in mutants(&v) {
                            go(&y, rec);
                        }
                        for y in restyles(&v, 2) {
                            go(&y, rec);
                        }
                    }
                    // (a part of) the foreign values
                    let step = rec.tier.pick(7, 1);
                    for v in foreign.iter().skip(j % step).step_by(step) {
                        go(v, rec);
                    }
                    if rec.stopped() {
                        return;
                    }
                }
            })
        })
        .collect();
    out.extend(crate::j::long(read_damaged));
    // a name, and all the others which are not it
    for part in 0..8 {
        out.push(item(format!("names for one another {part}"), move |rec: &mut Rec| {
            let names = w::all_names();
            let int = || DT::Int(P::U8);
            for k in (part..names.len()).step_by(8) {
                let one: Names = &names[k..k + 1];
                let s = DT::Struct(one, vec![int()]);
                let o = DT::Struct(one, vec![DT::Opt(Box::new(int()))]);
                let e = DT::Enum(one, vec![VT::Newtype(Box::new(int()))]);
                let u = DT::Enum(one, vec![VT::Unit]);
                let f = DT::Enum(one, vec![VT::Struct(one, vec![int()])]);
                let mut others: Vec<String> = names.iter().map(|n| n.to_string()).collect();
                let n = one[0];
                others.extend([n.to_uppercase(), n.to_lowercase(), n.trim().to_string(), format!("{n} "), format!(" {n}"), format!("{n}_"), format!("{n}{n}"), format!("r#{n}"), format!("\"{n}\""), n.replace('_', "-"), n.replace('_', ""), k.to_string(), "0".into()]);
                for m in others {
                    for (t, v) in [
                        (&s, w::nm(vec![(&m, w::u(5))])),
                        (&s, w::nm(vec![(&m, w::u(5)), (n, w::u(6))])),
                        (&s, w::nm(vec![(n, w::u(5)), (&m, w::u(6))])),
                        (&s, w::var(&m, w::cn(vec![(n, w::u(5))]))),
                        (&o, w::nm(vec![(&m, w::var("Some", w::cu(vec![w::u(5)])))])),
                        (&e, w::var(&m, w::cu(vec![w::u(5)]))),
                        (&u, w::var(&m, w::cu(vec![]))),
                        (&u, w::s(&m)),
                        (&f, w::var(&m, w::cn(vec![(&m, w::u(5))]))),
                        (&f, w::var(n, w::cn(vec![(&m, w::u(5))]))),
                    ] {
                        rec.case(|| format!("{} from {}", show(t), showv(&v)), || read_as(t, &v));
                    }
                }
            }
        }));
    }
    out.push(item("leaves and their containers from everything", |rec: &mut Rec| {
        let foreign = pool(2);
        let mut ts = leaves();
        ts.push(DT::Any);
        for x in [DT::Int(P::U8), DT::Str, DT::Unit, DT::Bytes, DT::Any] {
            ts.extend(apply(&x));
        }
        for t in ts {
            for v in &foreign {
                rec.case(|| format!("{} from {}", show(&t), showv(v)), || read_as(&t, v));
            }
        }
    }));
    out
}

// ------------------------------------------------------------------ J05

/// What a data source hands over, call by call.
#[derive(Clone, Debug)]
enum Ev {
    Bool(bool),
    U(P, u128),
    I(P, i128),
    F32(f32),
    F64(f64),
    Char(char),
    /// 0: passed by reference, 1: borrowed from the source, 2: owned
    Str(String, u8),
    Bytes(Vec<u8>, u8),
    None,
    Some(Box<Ev>),
    Unit,
    Newtype(Box<Ev>),
    Seq(Vec<Ev>, Hint),
    Map(Vec<(Ev, Ev)>, Hint),
    /// A case's name and its content.
    Enum(Box<Ev>, Box<Ev>),
    /// The source fails here.
    Fail,
    /// The source fails after this many items of the list or map.
    Cut(Box<Ev>, usize),
}
/// How many items a source announces.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Hint {
    Exact,
    Unknown,
    Is(usize),
}
impl Hint {
    fn of(self, left: usize) -> Option<usize> {
        match self {
            Hint::Exact => Some(left),
            Hint::Unknown => None,
            Hint::Is(n) => Some(n),
        }
    }
}

type SrcErr = serde::de::value::Error;
fn src_err() -> SrcErr {
    serde::de::Error::custom("the source failed")
}

impl<'de> serde::Deserializer<'de> for &'de Ev {
    type Error = SrcErr;
    fn deserialize_any<W: serde::de::Visitor<'de>>(self, w: W) -> Result<W::Value, SrcErr> {
        match self {
            Ev::Bool(b) => w.visit_bool(*b),
            Ev::U(p, n) => match p {
                P::U8 => w.visit_u8(*n as u8),
                P::U16 => w.visit_u16(*n as u16),
                P::U32 => w.visit_u32(*n as u32),
                P::U64 => w.visit_u64(*n as u64),
                _ => w.visit_u128(*n),
            },
            Ev::I(p, n) => match p {
                P::I8 => w.visit_i8(*n as i8),
                P::I16 => w.visit_i16(*n as i16),
                P::I32 => w.visit_i32(*n as i32),
                P::I64 => w.visit_i64(*n as i64),
                _ => w.visit_i128(*n),
            },
            Ev::F32(x) => w.visit_f32(*x),
            Ev::F64(x) => w.visit_f64(*x),
            Ev::Char(c) => w.visit_char(*c),
            Ev::Str(s, 0) => w.visit_str(&s.clone()),
            Ev::Str(s, 1) => w.visit_borrowed_str(s),
            Ev::Str(s, _) => w.visit_string(s.clone()),
            Ev::Bytes(s, 0) => w.visit_bytes(&s.clone()),
            Ev::Bytes(s, 1) => w.visit_borrowed_bytes(s),
            Ev::Bytes(s, _) => w.visit_byte_buf(s.clone()),
            Ev::None => w.visit_none(),
            Ev::Some(x) => w.visit_some(&**x),
            Ev::Unit => w.visit_unit(),
            Ev::Newtype(x) => w.visit_newtype_struct(&**x),
            Ev::Seq(xs, h) => w.visit_seq(List { xs, h: *h, cut: None }),
            Ev::Map(xs, h) => w.visit_map(Entries { xs, h: *h, cut: None }),
            Ev::Enum(n, x) => w.visit_enum(Case(n, x)),
            Ev::Fail => Err(src_err()),
            Ev::Cut(x, n) => match &**x {
                Ev::Seq(xs, h) => w.visit_seq(List { xs, h: *h, cut: Some(*n) }),
                Ev::Map(xs, h) => w.visit_map(Entries { xs, h: *h, cut: Some(*n) }),
                _ => Err(src_err()),
            },
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct List<'a> {
    xs: &'a [Ev],
    h: Hint,
    cut: Option<usize>,
}
impl<'de> serde::de::SeqAccess<'de> for List<'de> {
    type Error = SrcErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, SrcErr> {
        if self.cut == Some(0) {
            return Err(src_err());
        }
        self.cut = self.cut.map(|n| n - 1);
        let Some((x, rest)) = self.xs.split_first() else { return Ok(None) };
        self.xs = rest;
        s.deserialize(x).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.h.of(self.xs.len())
    }
}
struct Entries<'a> {
    xs: &'a [(Ev, Ev)],
    h: Hint,
    cut: Option<usize>,
}
impl<'de> serde::de::MapAccess<'de> for Entries<'de> {
    type Error = SrcErr;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, SrcErr> {
        if self.cut == Some(0) {
            return Err(src_err());
        }
        self.cut = self.cut.map(|n| n - 1);
        let Some((k, _)) = self.xs.first() else { return Ok(None) };
        s.deserialize(k).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, SrcErr> {
        let ((_, x), rest) = self.xs.split_first().expect("a value was asked for without a key");
        self.xs = rest;
        s.deserialize(x)
    }
    fn size_hint(&self) -> Option<usize> {
        self.h.of(self.xs.len())
    }
}
struct Case<'a>(&'a Ev, &'a Ev);
impl<'de> serde::de::EnumAccess<'de> for Case<'de> {
    type Error = SrcErr;
    type Variant = Content<'de>;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Content<'de>), SrcErr> {
        Ok((s.deserialize(self.0)?, Content(self.1)))
    }
}
/// Hands over what is inside, whatever kind of case was expected.
struct Content<'a>(&'a Ev);
impl<'de> serde::de::VariantAccess<'de> for Content<'de> {
    type Error = SrcErr;
    fn unit_variant(self) -> Result<(), SrcErr> {
        serde::Deserialize::deserialize(self.0)
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, SrcErr> {
        s.deserialize(self.0)
    }
    fn tuple_variant<W: serde::de::Visitor<'de>>(self, _: usize, w: W) -> Result<W::Value, SrcErr> {
        serde::Deserializer::deserialize_any(self.0, w)
    }
    fn struct_variant<W: serde::de::Visitor<'de>>(self, _: &'static [&'static str], w: W) -> Result<W::Value, SrcErr> {
        serde::Deserializer::deserialize_any(self.0, w)
    }
}

/// What a source's data is as a value, a composite, a variant or a primitive.
/// `Err(true)`: must be refused, `Err(false)`: unspecified.
type Want<X> = Result<X, bool>;

fn text_of(e: &Ev) -> Want<String> {
    match e {
        Ev::Str(s, _) => Ok(s.clone()),
        Ev::Char(c) => Ok(c.to_string()),
        Ev::Bytes(b, _) => String::from_utf8(b.clone()).map_err(|_| true),
        Ev::Newtype(_) | Ev::Some(_) => Err(false),
        _ => Err(true),
    }
}
fn all<X>(xs: impl Iterator<Item = Want<X>>) -> Want<Vec<X>> {
    // the first one that is refused decides; an unspecified one before leaves it open
    xs.collect()
}
fn value_want(e: &Ev) -> Want<V> {
    match e {
        Ev::Bool(_) | Ev::U(..) | Ev::I(..) | Ev::Char(_) | Ev::Str(..) => prim_want(e).map(w::p),
        Ev::F32(_) | Ev::F64(_) | Ev::Fail => Err(true),
        Ev::None | Ev::Some(_) | Ev::Enum(..) => variant_want(e).map(|x| w::v(ValueDef::Variant(x))),
        Ev::Newtype(x) => value_want(x),
        Ev::Map(xs, _) => {
            if let Some((k, x)) = xs.first() {
                if text_of(k)? == MARK {
                    // the mark of a bit sequence
                    let Ev::Seq(bs, _) = x else { return Err(false) };
                    let mut b = scale_value::BitSequence::new();
                    for x in bs {
                        let Ev::Bool(x) = x else { return Err(!matches!(x, Ev::Newtype(_) | Ev::Some(_))) };
                        b.push(*x);
                    }
                    // (anything besides the bits cannot be kept)
                    return if xs.len() == 1 { Ok(w::v(ValueDef::BitSequence(b))) } else { Err(true) };
                }
            }
            comp_want(e).map(|c| comp(&c))
        }
        Ev::Cut(..) => Err(true),
        Ev::Unit | Ev::Bytes(..) | Ev::Seq(..) => comp_want(e).map(|c| comp(&c)),
    }
}
fn comp_want(e: &Ev) -> Want<Composite<()>> {
    match e {
        Ev::Unit => Ok(w::cu(vec![])),
        Ev::Bytes(b, _) => Ok(w::cu(b.iter().map(|x| w::u(*x as u128)).collect())),
        Ev::Seq(xs, _) => Ok(w::cu(all(xs.iter().map(value_want))?)),
        Ev::Map(xs, _) => Ok(Composite::Named(all(xs.iter().map(|(k, x)| Ok((text_of(k)?, value_want(x)?))))?)),
        Ev::Newtype(x) => comp_want(x),
        Ev::None | Ev::Some(_) | Ev::Enum(..) => Err(false),
        _ => Err(true),
    }
}
fn variant_want(e: &Ev) -> Want<Variant<()>> {
    match e {
        Ev::None => Ok(Variant { name: "None".into(), values: w::cu(vec![]) }),
        Ev::Some(x) => Ok(Variant { name: "Some".into(), values: w::cu(vec![value_want(x)?]) }),
        Ev::Enum(n, x) => Ok(Variant { name: text_of(n)?, values: comp_want(x)? }),
        Ev::Map(xs, _) => {
            let (mut name, mut values) = (None, None);
            for (k, x) in xs {
                match &*text_of(k)? {
                    "name" if name.is_none() => name = Some(text_of(x)?),
                    "values" if values.is_none() => values = Some(comp_want(x)?),
                    // which of two wins?
                    "name" | "values" => return Err(false),
                    _ => return Err(true),
                }
            }
            match (name, values) {
                (Some(name), Some(values)) => Ok(Variant { name, values }),
                _ => Err(true),
            }
        }
        Ev::Newtype(_) => Err(false),
        _ => Err(true),
    }
}
fn prim_want(e: &Ev) -> Want<Primitive> {
    Ok(match e {
        Ev::Bool(b) => Primitive::Bool(*b),
        Ev::U(_, n) => Primitive::U128(*n),
        Ev::I(_, n) => Primitive::I128(*n),
        Ev::Char(c) => Primitive::Char(*c),
        Ev::Str(s, _) => Primitive::String(s.clone()),
        Ev::Bytes(b, _) => Primitive::U256(b[..].try_into().map_err(|_| true)?),
        Ev::Seq(xs, _) => {
            let b: Vec<u8> = all(xs.iter().map(|x| match x {
                Ev::U(_, n) => u8::try_from(*n).map_err(|_| true),
                Ev::I(_, n) => u8::try_from(*n).map_err(|_| true),
                Ev::Newtype(_) | Ev::Some(_) => Err(false),
                _ => Err(true),
            }))?;
            Primitive::U256(b.try_into().map_err(|_| true)?)
        }
        Ev::Newtype(_) => return Err(false),
        _ => return Err(true),
    })
}

/// Number of nodes, for the bound on memory.
fn size(e: &Ev) -> u64 {
    1 + match e {
        Ev::Str(s, _) => s.len() as u64,
        Ev::Bytes(b, _) => b.len() as u64,
        Ev::Some(x) | Ev::Newtype(x) | Ev::Cut(x, _) => size(x),
        Ev::Enum(n, x) => size(n) + size(x),
        Ev::Seq(xs, _) => xs.iter().map(size).sum(),
        Ev::Map(xs, _) => xs.iter().map(|(k, x)| size(k) + size(x)).sum(),
        _ => 0,
    }
}

fn read_source(e: &Ev) -> Verdict {
    fn one<'de, X: serde::Deserialize<'de> + PartialEq + std::fmt::Debug>(what: &str, e: &'de Ev, want: Want<X>) -> Result<bool, String> {
        step();
        let (got, used) = crate::alloc::measure(|| X::deserialize(e));
        let room = (1 << 20) + 3000 * size(e);
        if used.bytes > room {
            return Err(format!("{what}: {} bytes were asked for, more than {room}", used.bytes));
        }
        match (got, want) {
            (Ok(x), Ok(y)) if x == y => Ok(true),
            (Err(_), Err(true)) => Ok(false),
            (_, Err(false)) => Ok(false),
            (x, y) => Err(format!("{what} gives {:?} instead of {}", x.map_err(|e| e.to_string()), y.map_or("an error".into(), |y| format!("{y:?}")))),
        }
    }
    let a = one("value", e, value_want(e))?;
    one("definition", e, value_want(e).map(|x| x.value))?;
    let c = one("composite", e, comp_want(e))?;
    let v = one("variant", e, variant_want(e))?;
    let p = one("primitive", e, prim_want(e))?;
    Ok(match (a, c, v, p) {
        (true, false, false, false) => "value",
        (true, true, false, _) => "composite",
        (true, _, true, _) => "variant",
        (true, false, false, true) => "primitive",
        (false, ..) => "refused",
    })
}

// ------------------------------------------------------------------ J09: sources

/// Allocations and memory of reading a source as a value, a definition, a composite and a variant.
fn source_work(e: &Ev) -> [(u64, u64); 4] {
    steps(4);
    fn one<'de, X: serde::Deserialize<'de>>(e: &'de Ev) -> (u64, u64) {
        let (_, used) = crate::alloc::measure(|| X::deserialize(e).is_ok());
        (used.count, used.bytes)
    }
    [one::<V>(e), one::<ValueDef<()>>(e), one::<Composite<()>>(e), one::<Variant<()>>(e)]
}
const READ_AS: [&str; 4] = ["a value", "a definition", "a composite", "a variant"];
/// What a source holds must cost in proportion to how much it is. (Reading bits, serde itself
/// trusts announced lengths for a mebibyte.)
fn source_costs(e: &Ev, room: u64) -> Verdict {
    let n = size(e);
    for (what, (count, bytes)) in READ_AS.iter().zip(source_work(e)) {
        if count > 8 * n + 24 || bytes > 3000 * n + 16384 + room {
            return Err(format!("reading a source of size {n} as {what} takes {count} allocations and {bytes} bytes"));
        }
    }
    Ok("source")
}
fn layer(kind: usize, e: Ev) -> Ev {
    let s = |x: &str| Ev::Str(x.into(), 0);
    match kind {
        0 => Ev::Some(Box::new(e)),
        1 => Ev::Newtype(Box::new(e)),
        2 => Ev::Seq(vec![e], Hint::Exact),
        3 => Ev::Seq(vec![Ev::U(P::U8, 1), e, s("z")], Hint::Unknown),
        4 => Ev::Map(vec![(s("k"), e)], Hint::Exact),
        5 => Ev::Map(vec![(s("name"), s("A")), (s("values"), e)], Hint::Is(1 << 40)),
        6 => Ev::Map(vec![(s("a"), e), (s("b"), Ev::Unit)], Hint::Unknown),
        7 => Ev::Enum(Box::new(s("A")), Box::new(e)),
        8 => Ev::Enum(Box::new(s("A")), Box::new(Ev::Seq(vec![e, Ev::None], Hint::Is(9)))),
        _ => Ev::Enum(Box::new(s("A")), Box::new(Ev::Map(vec![(s("x"), Ev::Bool(true)), (s("y"), e)], Hint::Exact))),
    }
}
const LAYERS: usize = 10;
fn source_tower(a: usize, b: usize, inner: &Ev) -> Verdict {
    let mut prev: Option<[(u64, u64); 4]> = None;
    for depth in [6usize, 12, 24, 48] {
        let mut e = inner.clone();
        for k in 0..depth {
            e = layer(if k % 2 == 0 { a } else { b }, e);
        }
        let now = source_work(&e);
        if let Some(p) = prev {
            for k in 0..4 {
                let ((c0, b0), (c1, b1)) = (p[k], now[k]);
                if c1 > 2 * c0 + c0 / 2 + 40 || b1 > 2 * b0 + b0 / 2 + 16384 {
                    return Err(format!("read as {}: {c0} allocations and {b0} bytes at depth {}, {c1} and {b1} at depth {depth}", READ_AS[k], depth / 2));
                }
            }
        }
        prev = Some(now);
    }
    Ok("source tower")
}
pub fn source_effort() -> Vec<Item> {
    let mut out = vec![item("source towers", |rec: &mut Rec| {
        for a in 0..LAYERS {
            for b in 0..LAYERS {
                for inner in [Ev::U(P::U16, 5), Ev::Fail, Ev::Str("abc".into(), 2), Ev::Bytes(vec![1, 2, 3], 0), Ev::F32(1.0), Ev::None] {
                    rec.case(|| format!("layers {a} and {b} around {inner:?}"), || source_tower(a, b, &inner));
                }
            }
        }
    })];
    for k in 0..LAYERS {
        out.push(item("long sources", move |rec: &mut Rec| {
            for h in [Hint::Exact, Hint::Unknown, Hint::Is(0), Hint::Is(3), Hint::Is(usize::MAX)] {
                for n in (0..=rec.tier.pick(80usize, 300)).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 3000, 4096, 10_000]) {
                    let one = |j: usize| layer(k, Ev::U(P::U32, j as u128));
                    let list = Ev::Seq((0..n).map(one).collect(), h);
                    let map = Ev::Map((0..n).map(|j| (Ev::Str(format!("k{j}"), (j % 3) as u8), one(j))).collect(), h);
                    let case = Ev::Enum(Box::new(Ev::Str("A".into(), 1)), Box::new(list.clone()));
                    let marked = Ev::Map(vec![(Ev::Str(MARK.into(), 0), Ev::Seq((0..n).map(|j| Ev::Bool(j % 3 == 0)).collect(), h))], h);
                    let cut = Ev::Cut(Box::new(list.clone()), n / 2);
                    for (what, e) in [("list", list), ("map", map), ("case", case), ("bits", marked), ("cut", cut)] {
                        rec.case(|| format!("{what} of {n} announced as {h:?}, layer {k}"), || source_costs(&e, if what == "bits" { 1 << 20 } else { 0 }));
                    }
                }
            }
        }));
    }
    for k in 0..3u8 {
        out.push(item("long texts", move |rec: &mut Rec| {
            for n in (0..=200usize).chain([1000, 4095, 4096, 70_000]) {
                for e in [Ev::Str("é".repeat(n), k), Ev::Bytes(vec![200; n], k)] {
                    rec.case(|| format!("text or bytes of length {n}, kind {k}"), || source_costs(&e, 0));
                }
            }
        }));
    }
    out
}

fn ev_leaves() -> Vec<Ev> {
    let mut out = vec![Ev::Bool(true), Ev::Bool(false)];
    for p in UINTS {
        let (bits, _) = int_bits(p).unwrap();
        let hi = u128::MAX >> (128 - bits);
        out.extend([0, 1, hi / 2 + 1, hi].map(|n| Ev::U(p, n)));
    }
    for p in IINTS {
        let (bits, _) = int_bits(p).unwrap();
        let hi = (u128::MAX >> (129 - bits)) as i128;
        out.extend([-hi - 1, -1, 0, 1, hi].map(|n| Ev::I(p, n)));
    }
    out.extend(['a', '\0', '🦀'].map(Ev::Char));
    for k in 0..3u8 {
        for s in ["", "a", "é\"", MARK, "name"] {
            out.push(Ev::Str(s.into(), k));
        }
        for b in [vec![], vec![1], vec![0xff, 0xfe], vec![b'a'; 31], vec![7; 32], vec![200; 33]] {
            out.push(Ev::Bytes(b, k));
        }
    }
    out.extend([Ev::None, Ev::Unit, Ev::Fail]);
    for n in [31usize, 32, 33] {
        out.push(Ev::Seq(vec![Ev::U(P::U8, 9); n], Hint::Exact));
    }
    let mut bad = vec![Ev::U(P::U64, 9); 32];
    out.push(Ev::Seq(bad.clone(), Hint::Unknown));
    bad[31] = Ev::U(P::U16, 256);
    out.push(Ev::Seq(bad, Hint::Exact));
    out.extend(crate::j3::floats(32).into_iter().map(|x| Ev::F32(x as f32)));
    out.extend(crate::j3::floats(64).into_iter().map(Ev::F64));
    out
}
fn ev_few() -> Vec<Ev> {
    vec![
        Ev::U(P::U8, 5),
        Ev::Str("a".into(), 0),
        Ev::Bool(true),
        Ev::None,
        Ev::Unit,
        Ev::Fail,
        Ev::F64(1.0),
        Ev::I(P::I64, -1),
        Ev::Bytes(vec![1, 2], 2),
        Ev::Seq(vec![], Hint::Exact),
        Ev::Map(vec![], Hint::Unknown),
        Ev::Seq(vec![Ev::Bool(true), Ev::Bool(false)], Hint::Unknown),
        Ev::Map(vec![(Ev::Str("b".into(), 2), Ev::U(P::U8, 1))], Hint::Exact),
        Ev::Some(Box::new(Ev::Bool(false))),
        Ev::Newtype(Box::new(Ev::I(P::I8, 3))),
        Ev::Enum(Box::new(Ev::Str("V".into(), 1)), Box::new(Ev::Unit)),
    ]
}
const HINTS: [Hint; 9] = [Hint::Exact, Hint::Unknown, Hint::Is(0), Hint::Is(1), Hint::Is(70), Hint::Is(1 << 24), Hint::Is(1 << 40), Hint::Is(isize::MAX as usize), Hint::Is(usize::MAX)];

/// Every way to put a node into something.
fn ev_around(x: &Ev, hints: &[Hint]) -> Vec<Ev> {
    let s = |n: &str| Ev::Str(n.into(), 0);
    let b = || Box::new(x.clone());
    let mut out = vec![Ev::Some(b()), Ev::Newtype(b()), Ev::Enum(Box::new(s("A")), b()), Ev::Enum(b(), Box::new(Ev::Unit)), Ev::Enum(b(), Box::new(Ev::Seq(vec![Ev::U(P::U8, 1)], Hint::Exact)))];
    for h in hints {
        let lists = [
            vec![x.clone()],
            vec![x.clone(), Ev::U(P::U8, 1)],
            vec![Ev::Bool(true), x.clone()],
            vec![Ev::Unit, x.clone(), x.clone()],
        ];
        for l in lists {
            for cut in 0..=l.len() {
                out.push(Ev::Cut(Box::new(Ev::Seq(l.clone(), *h)), cut));
            }
            out.push(Ev::Seq(l, *h));
        }
        let maps = [
            vec![(s("a"), x.clone())],
            vec![(x.clone(), Ev::Bool(true))],
            vec![(s("a"), x.clone()), (s("b"), Ev::Unit)],
            vec![(s("a"), Ev::U(P::U8, 1)), (s("a"), x.clone())],
            vec![(s("a"), Ev::U(P::U8, 1)), (x.clone(), Ev::Unit)],
            vec![(s(MARK), x.clone())],
            vec![(s("z"), Ev::Unit), (s(MARK), x.clone())],
            vec![(s(MARK), Ev::Seq(vec![Ev::Bool(true), x.clone()], *h))],
            vec![(s(MARK), Ev::Seq(vec![Ev::Bool(true)], *h)), (s("a"), x.clone())],
            vec![(s(MARK), Ev::Seq(vec![Ev::Bool(true)], *h)), (x.clone(), Ev::Unit)],
            vec![(s("name"), x.clone()), (s("values"), Ev::Unit)],
            vec![(s("name"), s("A")), (s("values"), x.clone())],
            vec![(s("values"), x.clone()), (s("name"), s("B"))],
            vec![(s("name"), s("A")), (s("values"), Ev::Seq(vec![x.clone()], *h))],
            vec![(s("name"), x.clone())],
            vec![(s("values"), x.clone())],
            vec![(s("name"), s("A")), (s("values"), Ev::Unit), (s("more"), x.clone())],
        ];
        for m in maps {
            for cut in 0..=m.len() {
                out.push(Ev::Cut(Box::new(Ev::Map(m.clone(), *h)), cut));
            }
            out.push(Ev::Map(m, *h));
        }
    }
    out
}

pub fn j05(tier: Tier) -> Vec<Item> {
    let n = tier.pick(16, 64);
    let mut out = w::spread("flat", 4, |_| ev_leaves(), |e, rec| rec.case(|| format!("{e:?}"), || read_source(e)));
    out.extend(w::spread(
        "nested",
        n,
        |_| ev_leaves().into_iter().chain(ev_few()).collect(),
        |x, rec| {
            for e in ev_around(x, &HINTS) {
                rec.case(|| format!("{e:?}"), || read_source(&e));
            }
        },
    ));
    out.extend(w::spread(
        "nested twice",
        n,
        |tier| ev_few().iter().chain(ev_leaves().iter().take(tier.pick(0, 200))).flat_map(|x| ev_around(x, &HINTS[..tier.pick(2, 3)])).collect(),
        |x, rec| {
            for e in ev_around(x, &[Hint::Unknown, Hint::Is(usize::MAX)][..rec.tier.pick(2, 2)]) {
                rec.case(|| format!("{e:?}"), || read_source(&e));
            }
        },
    ));
    out.extend(w::spread("names", 8, crate::s::names_of_every_kind, |n: &String, rec| {
        let s = |how| Ev::Str(n.clone(), how);
        for how in 0..3 {
            let two = Ev::Map(vec![(Ev::Str("a".into(), 2), Ev::U(P::U8, 1)), (s(how), s(how))], Hint::Exact);
            for e in [s(how), Ev::Map(vec![(s(how), Ev::Bool(true))], Hint::Unknown), two.clone(), Ev::Enum(Box::new(s(how)), Box::new(Ev::Unit)), Ev::Enum(Box::new(s(how)), Box::new(two))] {
                rec.case(|| format!("{e:?}"), || read_source(&e));
            }
        }
    }));
    out.push(item("long", |rec| {
        for n in crate::big::lengths(20, &[6, 7, 8, 12, 14, 16]) {
            for h in HINTS {
                let l = Ev::Seq((0..n).map(|k| Ev::U(P::U32, k as u128)).collect(), h);
                let bits = Ev::Map(vec![(Ev::Str(MARK.into(), 2), Ev::Seq((0..n).map(|k| Ev::Bool(k % 3 == 0)).collect(), h))], h);
                let m = Ev::Map((0..n).map(|k| (Ev::Str(k.to_string(), 2), Ev::Bool(true))).collect(), h);
                for (what, e) in [("list", l), ("bits", bits), ("map", m)] {
                    rec.case(|| format!("{what} of {n}, announced {h:?}"), || read_source(&e));
                }
            }
        }
    }));
    out
}

// ------------------------------------------------------------------ J07

/// What a sink was told.
#[derive(Clone, Debug, PartialEq)]
enum Say {
    Bool(bool),
    U(u128),
    I(i128),
    Char(char),
    Str(String),
    Seq(Option<usize>),
    Map(Option<usize>),
    Key,
    Val,
    End,
    /// Anything a value has no use for.
    Odd(&'static str),
}
/// A sink which records what it is told, and fails at one point.
struct Sink<'a> {
    said: &'a std::cell::RefCell<Vec<Say>>,
    fail_at: usize,
    readable: bool,
}
type SinkErr = serde::de::value::Error;
impl Sink<'_> {
    fn say(&self, s: Say) -> Result<(), SinkErr> {
        let mut l = self.said.borrow_mut();
        l.push(s);
        if l.len().checked_sub(1) == Some(self.fail_at) {
            Err(serde::ser::Error::custom("the sink failed"))
        } else {
            Ok(())
        }
    }
}
macro_rules! say {
    ($($f:ident($t:ty) $k:ident $as:ty,)*) => { $(
        fn $f(self, x: $t) -> Result<(), SinkErr> {
            self.say(Say::$k(x as $as))
        }
    )* };
}
impl<'a, 'b> serde::Serializer for &'b Sink<'a> {
    type Ok = ();
    type Error = SinkErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    say! {
        serialize_bool(bool) Bool bool,
        serialize_u8(u8) U u128,
        serialize_u16(u16) U u128,
        serialize_u32(u32) U u128,
        serialize_u64(u64) U u128,
        serialize_u128(u128) U u128,
        serialize_i8(i8) I i128,
        serialize_i16(i16) I i128,
        serialize_i32(i32) I i128,
        serialize_i64(i64) I i128,
        serialize_i128(i128) I i128,
        serialize_char(char) Char char,
    }
    fn serialize_f32(self, _: f32) -> Result<(), SinkErr> {
        self.say(Say::Odd("f32"))
    }
    fn serialize_f64(self, _: f64) -> Result<(), SinkErr> {
        self.say(Say::Odd("f64"))
    }
    fn serialize_str(self, s: &str) -> Result<(), SinkErr> {
        self.say(Say::Str(s.into()))
    }
    fn serialize_bytes(self, b: &[u8]) -> Result<(), SinkErr> {
        // bytes are as good as a list of them
        self.say(Say::Seq(Some(b.len())))?;
        for x in b {
            self.say(Say::U(*x as u128))?;
        }
        self.say(Say::End)
    }
    fn serialize_none(self) -> Result<(), SinkErr> {
        self.say(Say::Odd("none"))
    }
    fn serialize_some<T: serde::Serialize + ?Sized>(self, _: &T) -> Result<(), SinkErr> {
        self.say(Say::Odd("some"))
    }
    fn serialize_unit(self) -> Result<(), SinkErr> {
        self.say(Say::Odd("unit"))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), SinkErr> {
        self.say(Say::Odd("unit struct"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), SinkErr> {
        self.say(Say::Odd("unit variant"))
    }
    fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, _: &'static str, x: &T) -> Result<(), SinkErr> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), SinkErr> {
        self.say(Say::Odd("newtype variant"))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, SinkErr> {
        self.say(Say::Seq(n)).map(|_| self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, SinkErr> {
        self.say(Say::Seq(Some(n))).map(|_| self)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, SinkErr> {
        self.say(Say::Seq(Some(n))).map(|_| self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, SinkErr> {
        self.say(Say::Odd("tuple variant")).map(|_| self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, SinkErr> {
        self.say(Say::Map(n)).map(|_| self)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, SinkErr> {
        self.say(Say::Map(Some(n))).map(|_| self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, SinkErr> {
        self.say(Say::Odd("struct variant")).map(|_| self)
    }
    fn is_human_readable(&self) -> bool {
        self.readable
    }
}
macro_rules! items {
    ($($tr:ident $f:ident,)*) => { $(
        impl serde::ser::$tr for &Sink<'_> {
            type Ok = ();
            type Error = SinkErr;
            fn $f<T: serde::Serialize + ?Sized>(&mut self, x: &T) -> Result<(), SinkErr> {
                x.serialize(&**self)
            }
            fn end(self) -> Result<(), SinkErr> {
                self.say(Say::End)
            }
        }
    )* };
}
items! { SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field, }
impl serde::ser::SerializeMap for &Sink<'_> {
    type Ok = ();
    type Error = SinkErr;
    fn serialize_key<T: serde::Serialize + ?Sized>(&mut self, x: &T) -> Result<(), SinkErr> {
        self.say(Say::Key)?;
        x.serialize(&**self)
    }
    fn serialize_value<T: serde::Serialize + ?Sized>(&mut self, x: &T) -> Result<(), SinkErr> {
        self.say(Say::Val)?;
        x.serialize(&**self)
    }
    fn end(self) -> Result<(), SinkErr> {
        self.say(Say::End)
    }
}
macro_rules! named_items {
    ($($tr:ident,)*) => { $(
        impl serde::ser::$tr for &Sink<'_> {
            type Ok = ();
            type Error = SinkErr;
            fn serialize_field<T: serde::Serialize + ?Sized>(&mut self, k: &'static str, x: &T) -> Result<(), SinkErr> {
                self.say(Say::Key)?;
                self.say(Say::Str(k.into()))?;
                self.say(Say::Val)?;
                x.serialize(&**self)
            }
            fn end(self) -> Result<(), SinkErr> {
                self.say(Say::End)
            }
        }
    )* };
}
named_items! { SerializeStruct, SerializeStructVariant, }

/// What a sink must be told about a value.
fn says(v: &V, out: &mut Vec<Say>) {
    let s = |x: &str, out: &mut Vec<Say>| out.push(Say::Str(x.into()));
    match &v.value {
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => out.push(Say::Bool(*b)),
            Primitive::Char(c) => out.push(Say::Char(*c)),
            Primitive::String(x) => s(x, out),
            Primitive::U128(n) => out.push(Say::U(*n)),
            Primitive::I128(n) => out.push(Say::I(*n)),
            Primitive::U256(b) | Primitive::I256(b) => {
                out.push(Say::Seq(Some(32)));
                out.extend(b.iter().map(|x| Say::U(*x as u128)));
                out.push(Say::End);
            }
        },
        ValueDef::Composite(c) => says_c(c, out),
        ValueDef::Variant(x) => {
            out.extend([Say::Map(Some(2)), Say::Key]);
            s("name", out);
            out.push(Say::Val);
            s(&x.name, out);
            out.push(Say::Key);
            s("values", out);
            out.push(Say::Val);
            says_c(&x.values, out);
            out.push(Say::End);
        }
        ValueDef::BitSequence(b) => {
            out.extend([Say::Map(Some(1)), Say::Key]);
            s(MARK, out);
            out.extend([Say::Val, Say::Seq(Some(b.len()))]);
            out.extend(b.iter().map(Say::Bool));
            out.extend([Say::End, Say::End]);
        }
    }
}
fn says_c(c: &Composite<()>, out: &mut Vec<Say>) {
    match c {
        Composite::Unnamed(xs) => {
            out.push(Say::Seq(Some(xs.len())));
            xs.iter().for_each(|x| says(x, out));
        }
        Composite::Named(xs) => {
            out.push(Say::Map(Some(xs.len())));
            for (k, x) in xs {
                out.extend([Say::Key, Say::Str(k.clone()), Say::Val]);
                says(x, out);
            }
        }
    }
    out.push(Say::End);
}

fn tell<X: serde::Serialize>(what: &str, x: &X, want: &[Say], fail_at: usize, readable: bool) -> Result<(), String> {
    step();
    let said = Default::default();
    let got = x.serialize(&Sink { said: &said, fail_at, readable });
    let said = said.into_inner();
    let fails = fail_at < want.len();
    let upto = if fails { &want[..fail_at + 1] } else { want };
    if said != upto {
        let k = said.iter().zip(upto).take_while(|(a, b)| a == b).count();
        return Err(format!("{what}: call number {k} is {:?} instead of {:?} (of {} calls instead of {}, failing at {fail_at})", said.get(k), upto.get(k), said.len(), upto.len()));
    }
    match (got, fails) {
        (Ok(()), false) => Ok(()),
        (Err(e), true) if e.to_string() == "the sink failed" => Ok(()),
        (x, _) => Err(format!("{what}: result {x:?} although the sink {}", if fails { "failed" } else { "did not fail" })),
    }
}

fn tell_all(v: &V, rec: &mut Rec) {
    let mut want = vec![];
    says(v, &mut want);
    rec.case(
        || showv(v),
        || {
            tell("the value", v, &want, usize::MAX, true)?;
            tell("the value, to a binary sink", v, &want, usize::MAX, false)?;
            tell("the value with contexts", &w::number(v), &want, usize::MAX, true)?;
            tell("the definition", &v.value, &want, usize::MAX, false)?;
            Ok(match &v.value {
                ValueDef::Composite(c) => {
                    tell("the composite", c, &want, usize::MAX, true)?;
                    "composite"
                }
                ValueDef::Variant(c) => {
                    tell("the variant", c, &want, usize::MAX, true)?;
                    "variant"
                }
                ValueDef::Primitive(c) => {
                    tell("the primitive", c, &want, usize::MAX, true)?;
                    "primitive"
                }
                ValueDef::BitSequence(_) => "bits",
            })
        },
    );
    let n = want.len();
    for k in (0..n).filter(|k| *k < 40 || n - k < 10 || k % (n / 30) == 0) {
        rec.case(
            || format!("{} failing at call {k}", showv(v)),
            || {
                tell("the value", v, &want, k, true)?;
                tell("the value with contexts", &w::number(v), &want, k, false)?;
                Ok("sink fails")
            },
        );
    }
}

pub fn j07(tier: Tier) -> Vec<Item> {
    let mut items = w::spread("values", tier.pick(32, 256), crate::j::trees, tell_all);
    items.extend(crate::s::sized(tier, tell_all));
    items
}
