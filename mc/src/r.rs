//! D05: the type resolver is the user's; only what it says counts.
use crate::big;
use crate::corpus::{corpus, Corpus};
use crate::d::{nodes, real_decode, same_content};
use crate::e::{mutants, pool, real_encode, Readings};
use crate::engine::*;
use crate::inputs::{for_inputs, limits};
use crate::tys::*;
use crate::vals::V;
use scale_decode::{DecodeAsFields, DecodeAsType, IntoVisitor};
use scale_encode::{EncodeAsFields, EncodeAsType};
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Field, Primitive as RP, ResolvedTypeVisitor, TypeResolver, UnhandledKind, Variant};
use scale_value::{scale, Composite, Value, ValueDef};

/// A type id that cannot be copied, names nothing by default, and does not show what it names.
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct Tid(Option<Id>);
impl std::fmt::Debug for Tid {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Tid")
    }
}
impl Tid {
    fn of(id: Id) -> Tid {
        Tid(Some(id))
    }
    fn id(&self) -> Option<Id> {
        self.0
    }
}
/// What the resolver does when asked for a type it does not have.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Absent {
    Fails,
    NotFound,
    Unhandled(UnhandledKind),
}
/// Our own resolver: the same types, under ids of another kind and with other paths.
pub struct Own<'a> {
    reg: &'a Reg,
    absent: Absent,
    path: &'static [&'static str],
}
fn fields(f: &[F]) -> impl ExactSizeIterator<Item = Field<'_, Tid>> {
    f.iter().map(|(n, i)| Field { name: n.as_deref(), id: Tid::of(*i) })
}
impl TypeResolver for Own<'_> {
    type TypeId = Tid;
    type Error = String;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = Tid>>(&'this self, type_id: Tid, visitor: V) -> Result<V::Value, String> {
        let Some(t) = type_id.id().and_then(|i| self.reg.defs.get(i as usize)) else {
            return match self.absent {
                Absent::Fails => Err(format!("no type {type_id:?}")),
                Absent::NotFound => Ok(visitor.visit_not_found()),
                Absent::Unhandled(k) => Ok(visitor.visit_unhandled(k)),
            };
        };
        let path = self.path.iter().copied();
        Ok(match t {
            T::Prim(p) => visitor.visit_primitive(match p {
                P::Bool => RP::Bool,
                P::Char => RP::Char,
                P::Str => RP::Str,
                P::U8 => RP::U8,
                P::U16 => RP::U16,
                P::U32 => RP::U32,
                P::U64 => RP::U64,
                P::U128 => RP::U128,
                P::U256 => RP::U256,
                P::I8 => RP::I8,
                P::I16 => RP::I16,
                P::I32 => RP::I32,
                P::I64 => RP::I64,
                P::I128 => RP::I128,
                P::I256 => RP::I256,
            }),
            T::Compact(i) => visitor.visit_compact(Tid::of(*i)),
            T::Struct(f) => visitor.visit_composite(path, fields(f)),
            T::Enum(vs) => visitor.visit_variant(path, vs.iter().map(|(n, i, f)| Variant { index: *i, name: n, fields: fields(f) })),
            T::Seq(i) => visitor.visit_sequence(path, Tid::of(*i)),
            T::Array(n, i) => visitor.visit_array(Tid::of(*i), *n as usize),
            T::Tuple(v) => visitor.visit_tuple(v.iter().map(|i| Tid::of(*i))),
            T::Bits(s, msb) => visitor.visit_bit_sequence(
                match s {
                    Store::U8 => BitsStoreFormat::U8,
                    Store::U16 => BitsStoreFormat::U16,
                    Store::U32 => BitsStoreFormat::U32,
                    Store::U64 => BitsStoreFormat::U64,
                },
                if *msb { BitsOrderFormat::Msb0 } else { BitsOrderFormat::Lsb0 },
            ),
        })
    }
}
const PATHS: [&[&str]; 4] = [&[], &["Option"], &["bitvec", "order", "Lsb0"], &["Compact", "U256", "BTreeMap"]];

/// The corpus under our own resolver.
fn own(tier: Tier) -> &'static Own<'static> {
    use std::sync::OnceLock;
    static Q: OnceLock<Own<'static>> = OnceLock::new();
    static TH: OnceLock<Own<'static>> = OnceLock::new();
    let mk = || Own { reg: &corpus(tier).reg, absent: Absent::NotFound, path: PATHS[1] };
    match tier {
        Tier::Quick => Q.get_or_init(mk),
        Tier::Thorough => TH.get_or_init(mk),
    }
}
fn same_labels(a: &Value<Tid>, b: &Value<u32>) -> bool {
    let kids = |x: &Composite<Tid>, y: &Composite<u32>| x.values().zip(y.values()).all(|(p, q)| same_labels(p, q));
    a.context == Tid::of(b.context)
        && match (&a.value, &b.value) {
            (ValueDef::Composite(x), ValueDef::Composite(y)) => kids(x, y),
            (ValueDef::Variant(x), ValueDef::Variant(y)) => kids(&x.values, &y.values),
            _ => true,
        }
}
fn fields_of(reg: &Reg, id: Id) -> Option<Vec<F>> {
    match reg.defs.get(id as usize)? {
        T::Struct(f) => Some(f.clone()),
        T::Tuple(t) => Some(t.iter().map(|i| un(*i)).collect()),
        _ => None,
    }
}

/// Every way of decoding through our resolver, against the registry's result.
fn decode_case(c: &Corpus, o: &Own, id: Id, b: &[u8]) -> Verdict {
    let want = real_decode(c, id, b);
    let check = |what: &str, got: Result<(Value<()>, bool), String>, rest: &[u8]| -> Result<(), String> {
        match (&want, got) {
            (Ok((w, used)), Ok((v, labels))) => {
                if !same_content(w, &v) {
                    return Err(format!("{what} gives {} but with the registry it is {}", showv(&v), showv(w)));
                }
                if !labels {
                    return Err(format!("{what}: the labels are not the resolver's type ids"));
                }
                if rest.len() != b.len() - used || b[*used..] != *rest {
                    return Err(format!("{what} leaves {} bytes, with the registry {}", rest.len(), b.len() - used));
                }
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok((w, _)), Err(e)) => Err(format!("{what} refuses ({e}) what is {} with the registry", showv(w))),
            (Err(e), Ok((v, _))) => Err(format!("{what} gives {} but with the registry it is refused: {e}", showv(&v))),
        }
    };
    let labelled = |v: Value<Tid>| {
        let ok = want.as_ref().map(|w| same_labels(&v, &w.0)).unwrap_or(true);
        (v.map_context(|_| ()), ok)
    };
    steps(4);
    let cur = &mut &*b;
    let r = scale::decode_as_type(cur, Tid::of(id), o).map(labelled).map_err(|e| e.to_string());
    check("decoding", r, cur)?;
    let cur = &mut &*b;
    let r = <Value<()> as DecodeAsType>::decode_as_type(cur, Tid::of(id), o).map(|v| (v, true)).map_err(|e| e.to_string());
    check("decoding without labels", r, cur)?;
    let cur = &mut &*b;
    let r = scale_decode::visitor::decode_with_visitor(cur, Tid::of(id), o, <Value<()> as IntoVisitor>::into_visitor::<Own>()).map(|v| (v, true)).map_err(|e| e.to_string());
    check("decoding with the visitor", r, cur)?;
    let cur = &mut &*b;
    let r = scale::tracing::decode_as_type(cur, Tid::of(id), o);
    if let Err(e) = &r {
        // The same report but for the spelling of the type ids.
        let text = e.to_string();
        if let Err(w) = scale::tracing::decode_as_type(&mut &*b, id, &c.types) {
            let w = w.to_string();
            let (p, q) = (text.split("Decoded so far").next().unwrap(), w.split("Decoded so far").next().unwrap());
            let place = |x: &str| x.split(": ").next().unwrap_or("").to_string();
            if place(p) != place(q) {
                return Err(format!("tracing reports {p:?}, with the registry {q:?}"));
            }
        }
    }
    check("tracing", r.map(labelled).map_err(|e| e.to_string()), cur)?;
    if let Some(f) = fields_of(&c.reg, id) {
        steps(2);
        let cur = &mut &*b;
        let r = scale::decode_as_fields(cur, &mut fields(&f), o)
            .map(|x| labelled(Value { value: ValueDef::Composite(x), context: Tid::of(id) }))
            .map_err(|e| e.to_string());
        check("decoding the fields", r, cur)?;
        let cur = &mut &*b;
        let r = <Value<()> as DecodeAsFields>::decode_as_fields(cur, &mut fields(&f), o).map(|x| (x, true)).map_err(|e| e.to_string());
        check("decoding the fields without labels", r, cur)?;
    }
    Ok(if want.is_ok() { "decoded alike" } else { "refused alike" })
}
/// Every way of encoding through our resolver, against the registry's result.
fn encode_case(c: &Corpus, o: &Own, id: Id, v: &V) -> Verdict {
    let want = real_encode(c, id, v);
    let agree = |what: &str, got: Result<Vec<u8>, String>, want: &Result<Vec<u8>, String>| match (want, got) {
        (Ok(w), Ok(g)) if *w == g => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (w, g) => Err(format!("{what}: {} with our resolver, {} with the registry", shown(&g), shown(w))),
    };
    steps(2);
    let mut out = vec![];
    let r = scale::encode_as_type(v, Tid::of(id), o, &mut out).map(|_| out).map_err(|e| e.to_string());
    agree("encoding", r, &want)?;
    let r = v.encode_as_type(Tid::of(id), o).map_err(|e| e.to_string());
    agree("encoding to a new buffer", r, &want)?;
    if let (Some(f), ValueDef::Composite(comp)) = (fields_of(&c.reg, id), &v.value) {
        steps(3);
        let want = v.encode_as_fields(&mut f.iter().map(|(n, i)| Field { name: n.as_deref(), id: *i }), &c.types).map_err(|e| e.to_string());
        let r = v.encode_as_fields(&mut fields(&f), o).map_err(|e| e.to_string());
        agree("encoding as fields", r, &want)?;
        let r = comp.encode_as_fields(&mut fields(&f), o).map_err(|e| e.to_string());
        agree("encoding the composite as fields", r, &want)?;
    }
    Ok(if want.is_ok() { "encoded alike" } else { "not encodable alike" })
}
fn shown(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => hex(b),
        Err(e) => format!("refused ({e})"),
    }
}
fn plain(v: &Value<u32>) -> V {
    v.clone().map_context(|_| ())
}

/// Types reachable from a type, itself included, nearest first.
fn reachable(r: &Reg, id: Id, max: usize) -> Vec<Id> {
    let mut out = vec![id];
    let mut k = 0;
    while k < out.len() && out.len() < max {
        let next: Vec<Id> = match r.get(out[k]) {
            T::Compact(i) | T::Seq(i) | T::Array(_, i) => vec![*i],
            T::Struct(f) => f.iter().map(|f| f.1).collect(),
            T::Tuple(f) => f.clone(),
            T::Enum(v) => v.iter().flat_map(|v| v.2.iter().map(|f| f.1)).collect(),
            _ => vec![],
        };
        for i in next {
            if !out.contains(&i) {
                out.push(i);
            }
        }
        k += 1;
    }
    out.truncate(max);
    out
}
/// The part of the types reachable from `id` (renumbered), with `gone` missing.
fn without(r: &Reg, id: Id, gone: Id) -> (Reg, Id) {
    let ids = reachable(r, id, usize::MAX);
    let missing = ids.len() as Id + 100;
    let to = |i: Id| if i == gone { missing } else { ids.iter().position(|x| *x == i).unwrap() as Id };
    let fs = |f: &[F]| f.iter().map(|(n, i)| (n.clone(), to(*i))).collect::<Vec<_>>();
    let mut out = Reg::default();
    for i in &ids {
        out.defs.push(match r.get(*i) {
            T::Compact(i) => T::Compact(to(*i)),
            T::Seq(i) => T::Seq(to(*i)),
            T::Array(n, i) => T::Array(*n, to(*i)),
            T::Struct(f) => T::Struct(fs(f)),
            T::Tuple(f) => T::Tuple(f.iter().map(|i| to(*i)).collect()),
            T::Enum(v) => T::Enum(v.iter().map(|(n, x, f)| (n.clone(), *x, fs(f))).collect()),
            t => t.clone(),
        });
    }
    (out, to(id))
}
/// Decoding with a type missing: refused exactly where the missing type is needed.
fn gone_decode(c: &Corpus, id: Id, b: &[u8], kinds: &[Own]) -> Verdict {
    let d = c.reg.decode(id, b);
    let got = real_decode(c, id, b);
    match (&got, &d) {
        (Ok((v, n)), Dec::Done(w, m)) if same_content(v, w) && n == m => {}
        (Err(_), Dec::Bad | Dec::More) => {}
        (_, Dec::Skip) => return Ok("refused alike"),
        (g, _) => {
            return Err(match g {
                Ok((v, n)) => format!("with a type missing decoded to {} ({n} bytes)", showv(v)),
                Err(e) => format!("refused ({e}) although the missing type is not needed"),
            })
        }
    }
    for o in kinds {
        decode_case(c, o, id, b).map_err(|e| format!("a resolver whose answer to a missing type is {:?}: {e}", o.absent))?;
    }
    Ok(if got.is_ok() { "missing type not needed" } else { "missing type refused" })
}
fn gone_encode(c: &Corpus, id: Id, v: &V, kinds: &[Own]) -> Verdict {
    let got = real_encode(c, id, v);
    if let (Ok(b), Some(set)) = (&got, Readings::of(&c.reg, v, id)) {
        if !set.contains(b) {
            return Err(format!("with a type missing encoded to {}", hex(b)));
        }
    }
    for o in kinds {
        encode_case(c, o, id, v).map_err(|e| format!("a resolver whose answer to a missing type is {:?}: {e}", o.absent))?;
    }
    Ok(if got.is_ok() { "missing type not needed" } else { "missing type refused" })
}
fn absents() -> Vec<Absent> {
    vec![Absent::Fails, Absent::NotFound, Absent::Unhandled(UnhandledKind::Composite), Absent::Unhandled(UnhandledKind::Primitive), Absent::Unhandled(UnhandledKind::NotFound)]
}

pub fn d05(tier: Tier) -> Vec<Item> {
    let c = corpus(tier);
    let mut items: Vec<Item> = vec![];
    // (1) everything decoded and encoded through both resolvers
    items.extend(c.ids.iter().map(|&(id, depth)| {
        item(c.reg.show(id), move |rec: &mut Rec| {
            let c = corpus(rec.tier);
            let o = own(rec.tier);
            for_inputs(c, id, depth, rec.tier, &mut |b, _| {
                rec.case(|| format!("type #{id} {} bytes {}", c.reg.show(id), hex(b)), || decode_case(c, o, id, b));
            });
            let lim = limits(rec.tier, depth);
            let vals = c.reg.domain(id, lim.rich, 8, lim.values);
            let m = rec.tier.pick(3, 12);
            for (k, v) in vals.iter().enumerate() {
                let v = plain(v);
                rec.case(|| format!("value {} as type #{id} {}", showv(&v), c.reg.show(id)), || encode_case(c, o, id, &v));
                if k < m {
                    for x in mutants(&v) {
                        rec.case(|| format!("value {} as type #{id} {}", showv(&x), c.reg.show(id)), || encode_case(c, o, id, &x));
                    }
                }
            }
            for x in pool(1).into_iter().step_by(if depth > 1 { rec.tier.pick(3, 1) } else { 1 }) {
                rec.case(|| format!("value {} as type #{id} {}", showv(&x), c.reg.show(id)), || encode_case(c, o, id, &x));
            }
        })
    }));
    items.extend(big::inputs(tier, |c, id, b, d, rec| {
        // What is refused is of no interest for being long; the other checks look at that.
        if b.len() > rec.tier.pick(600, 20_000) && !matches!(d, Dec::Done(..)) {
            return;
        }
        let o = Own { reg: &c.reg, absent: Absent::NotFound, path: PATHS[2] };
        rec.case(|| format!("type #{id} {} bytes {}", c.reg.show(id), hex(b)), || decode_case(c, &o, id, b));
        if let Dec::Done(v, _) = c.reg.decode(id, b) {
            if nodes(&v) < rec.tier.pick(2000, 20_000) {
                let v = plain(&v);
                rec.case(|| format!("value {} as type #{id} {}", showv(&v), c.reg.show(id)), || encode_case(c, &o, id, &v));
            }
        }
    }));
    // (2) one type missing, for every part of every type
    for &(id, depth) in &c.ids {
        if depth > tier.pick(2, 3) {
            continue;
        }
        items.push(item(format!("parts missing: {}", c.reg.show(id)), move |rec: &mut Rec| {
            let base = corpus(rec.tier);
            let lim = limits(rec.tier, depth);
            let vals = base.reg.domain(id, 1, 8, rec.tier.pick(6, 24).min(lim.values));
            for gone in reachable(&base.reg, id, 6) {
                let (reg, top) = without(&base.reg, id, gone);
                let types = reg.portable();
                let c = Corpus { reg, types, ids: vec![], odd: vec![] };
                let kinds: Vec<Own> = absents().into_iter().zip(PATHS.iter().cycle()).map(|(absent, path)| Own { reg: &c.reg, absent, path }).collect();
                for (k, v) in vals.iter().enumerate() {
                    let e = base.reg.encode(id, v).unwrap();
                    let cuts: Vec<usize> = if k < 2 { (0..=e.len()).rev().take(12).collect() } else { vec![e.len()] };
                    for cut in cuts {
                        rec.case(|| format!("type {} without #{gone} {} bytes {}", base.reg.show(id), base.reg.show(gone), hex(&e[..cut])), || gone_decode(&c, top, &e[..cut], &kinds));
                    }
                    let v = plain(v);
                    rec.case(|| format!("value {} as type {} without #{gone} {}", showv(&v), base.reg.show(id), base.reg.show(gone)), || gone_encode(&c, top, &v, &kinds));
                    if k < rec.tier.pick(1, 4) {
                        for x in mutants(&v) {
                            rec.case(|| format!("value {} as type {} without #{gone} {}", showv(&x), base.reg.show(id), base.reg.show(gone)), || gone_encode(&c, top, &x, &kinds));
                        }
                    }
                }
                for x in pool(1).into_iter().skip(id as usize % 4).step_by(rec.tier.pick(4, 1)) {
                    rec.case(|| format!("value {} as type {} without #{gone} {}", showv(&x), base.reg.show(id), base.reg.show(gone)), || gone_encode(&c, top, &x, &kinds));
                }
            }
        }));
    }
    items
}
