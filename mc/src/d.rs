//! Decoding properties D01-D04 and T01, T02.
use crate::alloc::measure;
use crate::big;
use crate::corpus::{corpus, Corpus};
use crate::engine::*;
use crate::inputs::for_inputs;
use crate::tys::*;
use scale_decode::{DecodeAsFields, DecodeAsType, IntoVisitor};
use scale_type_resolver::Field;
use scale_value::{scale, Composite, Primitive, Value, ValueDef};

/// Group the types of the corpus into work items.
fn per_type(tier: Tier, f: impl Fn(&'static Corpus, Id, u32, &mut Rec) + Send + Sync + Copy + 'static) -> Vec<Item> {
    let c = corpus(tier);
    c.ids.iter().chain(&c.odd).map(|&(id, d)| item(c.reg.show(id), move |rec: &mut Rec| f(c, id, d, rec))).collect()
}

pub fn real_decode(c: &Corpus, id: Id, b: &[u8]) -> Result<(Value<u32>, usize), String> {
    step();
    let cur = &mut &*b;
    match scale::decode_as_type(cur, id, &c.types) {
        Ok(v) => {
            let used = check_suffix(b, cur)?;
            Ok((v, used))
        }
        Err(e) => Err(e.to_string()),
    }
}
/// The cursor must be a suffix of the input (same memory); returns how much was consumed.
fn check_suffix(b: &[u8], cur: &[u8]) -> Result<usize, String> {
    if cur.len() > b.len() {
        return Err("cursor grew".into());
    }
    let used = b.len() - cur.len();
    if !std::ptr::eq(b[used..].as_ptr(), cur.as_ptr()) && !cur.is_empty() {
        return Err("cursor does not point into the input".into());
    }
    Ok(used)
}

fn desc(c: &Corpus, id: Id, b: &[u8]) -> String {
    format!("type #{id} {} bytes {}", c.reg.show(id), hex(b))
}

// ------------------------------------------------------------------ D01
pub fn d01(tier: Tier) -> Vec<Item> {
    let mut items = per_type(tier, |c, id, depth, rec| {
        for_inputs(c, id, depth, rec.tier, &mut |b, d| {
            if matches!(d, Dec::Done(..)) {
                rec.case(|| desc(c, id, b), || d01_case(c, id, b, d));
            }
        });
    });
    items.extend(big::inputs(tier, |c, id, b, d, rec| {
        if matches!(d, Dec::Done(..)) {
            rec.case(|| desc(c, id, b), || d01_case(c, id, b, d));
        }
    }));
    // Sequences of decodes from one cursor: every pair of types of a small set, all values.
    items.push(item("pairs", |rec: &mut Rec| {
        let c = corpus(rec.tier);
        let ids: Vec<Id> = c.ids.iter().filter(|(i, d)| *d <= 1 && !c.reg.has_256(*i)).map(|x| x.0).step_by(rec.tier.pick(7, 2)).collect();
        for &a in &ids {
            let va = c.reg.domain(a, 0, 4, 2);
            for &b in &ids {
                let vb = c.reg.domain(b, 0, 4, 2);
                for x in &va {
                    for y in &vb {
                        let mut e = c.reg.encode(a, x).unwrap();
                        e.extend(c.reg.encode(b, y).unwrap());
                        rec.case(
                            || format!("types #{a} {} then #{b} {} bytes {}", c.reg.show(a), c.reg.show(b), hex(&e)),
                            || {
                                steps(2);
                                let cur = &mut &*e;
                                let g1 = scale::decode_as_type(cur, a, &c.types).map_err(|e| format!("first refused: {e}"))?;
                                let g2 = scale::decode_as_type(cur, b, &c.types).map_err(|e| format!("second refused: {e}"))?;
                                if !same_content(&g1, x) || !same_content(&g2, y) || !cur.is_empty() {
                                    return Err(format!("got {} and {}, {} bytes left", showv(&g1), showv(&g2), cur.len()));
                                }
                                Ok("two in a row")
                            },
                        );
                    }
                }
            }
        }
    }));
    items
}

fn d01_case(c: &Corpus, id: Id, b: &[u8], d: &Dec) -> Verdict {
    let Dec::Done(want, n) = d else { return Ok("skipped") };
    let (got, used) = real_decode(c, id, b).map_err(|e| format!("valid encoding of {} refused: {e}", showv(want)))?;
    if !same_content(&got, want) {
        return Err(format!("decoded to {} instead of {}", showv(&got), showv(want)));
    }
    if used != *n {
        return Err(format!("consumed {used} bytes instead of {n}"));
    }
    Ok(if *n == b.len() { "whole input" } else { "trailing data" })
}

pub fn same_content<A, B>(a: &Value<A>, b: &Value<B>) -> bool {
    match (&a.value, &b.value) {
        (ValueDef::Composite(x), ValueDef::Composite(y)) => same_comp(x, y),
        (ValueDef::Variant(x), ValueDef::Variant(y)) => x.name == y.name && same_comp(&x.values, &y.values),
        (ValueDef::BitSequence(x), ValueDef::BitSequence(y)) => x.iter().eq(y.iter()),
        (ValueDef::Primitive(x), ValueDef::Primitive(y)) => match (x, y) {
            (Primitive::Bool(p), Primitive::Bool(q)) => p == q,
            (Primitive::Char(p), Primitive::Char(q)) => p == q,
            (Primitive::String(p), Primitive::String(q)) => p == q,
            (Primitive::U128(p), Primitive::U128(q)) => p == q,
            (Primitive::I128(p), Primitive::I128(q)) => p == q,
            (Primitive::U256(p), Primitive::U256(q)) => p == q,
            (Primitive::I256(p), Primitive::I256(q)) => p == q,
            _ => false,
        },
        _ => false,
    }
}
pub fn same_comp<A, B>(a: &Composite<A>, b: &Composite<B>) -> bool {
    match (a, b) {
        (Composite::Named(x), Composite::Named(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same_content(&p.1, &q.1)),
        (Composite::Unnamed(x), Composite::Unnamed(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_content(p, q)),
        _ => false,
    }
}
pub fn nodes<C>(v: &Value<C>) -> u64 {
    1 + match &v.value {
        ValueDef::Composite(c) => c.values().map(nodes).sum(),
        ValueDef::Variant(w) => w.values.values().map(nodes).sum(),
        ValueDef::BitSequence(b) => b.len() as u64 / 64,
        ValueDef::Primitive(Primitive::String(s)) => s.len() as u64 / 64,
        _ => 0u64,
    }
}

// ------------------------------------------------------------------ D02
pub fn d02(tier: Tier) -> Vec<Item> {
    let mut items = per_type(tier, |c, id, depth, rec| {
        for_inputs(c, id, depth, rec.tier, &mut |b, d| {
            rec.case(|| desc(c, id, b), || d02_case(c, id, b, d));
        });
    });
    items.extend(big::inputs(tier, |c, id, b, d, rec| rec.case(|| desc(c, id, b), || d02_case(c, id, b, d))));
    // A type id that does not exist, at the top and nested.
    items.push(item("unknown type ids", |rec: &mut Rec| {
        let mut r = Reg::new();
        let u8_ = r.p(P::U8);
        let missing = 500;
        let tys = vec![r.wrap(missing), r.tup(&[u8_, missing]), r.seq(missing), r.arr(2, missing), r.st(&[("a", u8_), ("b", missing)]), r.en(&[("A", 0, vec![un(missing)])]), r.add(T::Compact(missing)), missing];
        let types = r.portable();
        let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
        for id in tys {
            for b in [&[][..], &[0], &[4, 0], &[0, 0, 0], &[8, 1, 2, 3, 4]] {
                let d = c.reg.decode(id, b);
                rec.case(|| format!("missing type in type #{id} {} bytes {}", if id == missing { "-".into() } else { c.reg.show(id) }, hex(b)), || d02_case(&c, id, b, &d));
            }
        }
    }));
    items
}
fn d02_case(c: &Corpus, id: Id, b: &[u8], d: &Dec) -> Verdict {
    steps(2);
    let (r, use1) = measure(|| scale::decode_as_type(&mut &*b, id, &c.types));
    let (rt, use2) = measure(|| scale::tracing::decode_as_type(&mut &*b, id, &c.types));
    // Parts decoded before a failure count as well (items without any bytes cost no input).
    let result_nodes = r.as_ref().map(nodes).unwrap_or(0).max(c.reg.nodes_met(id, b));
    let allowed = (1 << 20) + 3000 * (b.len() as u64 + result_nodes);
    // The tracing decoder clones what was decoded so far at each level of a failure.
    let allowed_traced = allowed * 4;
    if use1.bytes > allowed {
        return Err(format!("decoding {} input bytes asked for {} bytes of memory (largest request {})", b.len(), use1.bytes, use1.max));
    }
    if use2.bytes > allowed_traced {
        return Err(format!("tracing decoding of {} input bytes asked for {} bytes of memory (largest request {})", b.len(), use2.bytes, use2.max));
    }
    match d {
        Dec::Done(..) => Ok("accepted within memory bound"),
        Dec::Skip => Ok("skipped"),
        _ => {
            if let Ok(v) = r {
                return Err(format!("invalid input accepted as {}", showv(&v)));
            }
            if let Ok(v) = rt {
                return Err(format!("invalid input accepted by tracing decoder as {}", showv(&v)));
            }
            Ok(if *d == Dec::More { "truncated input refused" } else { "invalid input refused" })
        }
    }
}

// ------------------------------------------------------------------ D03
pub fn d03(tier: Tier) -> Vec<Item> {
    let mut items = per_type(tier, |c, id, depth, rec| {
        for_inputs(c, id, depth, rec.tier, &mut |b, d| {
            if matches!(d, Dec::Done(..)) {
                rec.case(|| desc(c, id, b), || d03_case(c, id, b, d));
            }
        });
    });
    items.extend(big::inputs(tier, |c, id, b, d, rec| {
        if matches!(d, Dec::Done(..)) {
            rec.case(|| desc(c, id, b), || d03_case(c, id, b, d));
        }
    }));
    items
}
fn d03_case(c: &Corpus, id: Id, b: &[u8], d: &Dec) -> Verdict {
    let Dec::Done(want, _) = d else { return Ok("skipped") };
    let (got, _) = real_decode(c, id, b).map_err(|e| format!("refused: {e}"))?;
    let n = same_ctx(&got, want, "top")?;
    // The same through the exported visitor type.
    step();
    let v2 = scale_decode::visitor::decode_with_visitor(&mut &*b, id, &c.types, scale::ValueVisitor::new()).map_err(|e| format!("visitor refused: {e}"))?;
    same_ctx(&v2, want, "top")?;
    Ok(if n > 1 { "nested labels agree" } else { "label agrees" })
}
fn same_ctx(a: &Value<u32>, b: &Value<u32>, at: &str) -> Result<u64, String> {
    if a.context != b.context {
        return Err(format!("node {at} is labelled with type {} instead of {}", a.context, b.context));
    }
    let (x, y) = match (&a.value, &b.value) {
        (ValueDef::Composite(x), ValueDef::Composite(y)) => (x, y),
        (ValueDef::Variant(x), ValueDef::Variant(y)) => (&x.values, &y.values),
        _ => return Ok(1),
    };
    if x.len() != y.len() {
        return Err(format!("node {at} has {} children instead of {}", x.len(), y.len()));
    }
    let mut n = 1;
    for (i, (p, q)) in x.values().zip(y.values()).enumerate() {
        n += same_ctx(p, q, &format!("{at}/{i}"))?;
    }
    Ok(n)
}

// ------------------------------------------------------------------ D04
pub fn d04(tier: Tier) -> Vec<Item> {
    let mut items = per_type(tier, |c, id, depth, rec| {
        for_inputs(c, id, depth, rec.tier, &mut |b, d| {
            rec.case(|| desc(c, id, b), || d04_case(c, id, b, d));
        });
    });
    items.extend(big::inputs(tier, |c, id, b, d, rec| rec.case(|| desc(c, id, b), || d04_case(c, id, b, d))));
    items
}
fn d04_case(c: &Corpus, id: Id, b: &[u8], d: &Dec) -> Verdict {
    type Fs<'a> = Vec<Field<'a, u32>>;
    let whole = real_decode(c, id, b);
    let agree = |what: &str, r: Result<(Value<()>, &[u8]), String>| -> Result<(), String> {
        match (&whole, r) {
            (Ok((v, used)), Ok((w, rest))) => {
                if !same_content(v, &w) {
                    return Err(format!("{what} gives {} but decoding the whole type gives {}", showv(&w), showv(v)));
                }
                if check_suffix(b, rest)? != *used {
                    return Err(format!("{what} leaves {} bytes, decoding the whole type {}", rest.len(), b.len() - used));
                }
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok((v, _)), Err(e)) => Err(format!("{what} refuses ({e}) what decoding the whole type accepts as {}", showv(v))),
            (Err(e), Ok((w, _))) => Err(format!("{what} accepts as {} what decoding the whole type refuses ({e})", showv(&w))),
        }
    };
    if whole.is_err() != !matches!(d, Dec::Done(..)) {
        return Err("whole-type decoding disagrees with the reference".into());
    }
    steps(4);
    let cur = &mut &*b;
    let r = <Value<()> as DecodeAsType>::decode_as_type(cur, id, &c.types).map(|v| (v, *cur)).map_err(|e| e.to_string());
    agree("decoding to a value without context", r)?;
    let cur = &mut &*b;
    let r = scale_decode::visitor::decode_with_visitor(cur, id, &c.types, <Value<()> as IntoVisitor>::into_visitor()).map(|v| (v, *cur)).map_err(|e| e.to_string());
    agree("decoding with the value visitor", r)?;
    // Field lists.
    let fields: Option<Vec<F>> = match c.reg.get(id) {
        T::Struct(f) => Some(f.clone()),
        T::Tuple(t) => Some(t.iter().map(|i| un(*i)).collect()),
        _ => None,
    };
    let mut label = "whole type ways agree";
    if let Some(f) = &fields {
        label = "field list ways agree";
        let mk = || -> Fs { f.iter().map(|(n, i)| Field { name: n.as_deref(), id: *i }).collect() };
        let cur = &mut &*b;
        let r = scale::decode_as_fields(cur, &mut mk().into_iter(), &c.types);
        if let (Ok(comp), Ok((v, _))) = (&r, &whole) {
            // field list decoding keeps the labels of the children
            if let ValueDef::Composite(w) = &v.value {
                if comp != w {
                    return Err(format!("field list gives {} (or other labels) instead of {}", showc(comp), showc(w)));
                }
            }
        }
        agree("decoding the field list", r.map(|x| (Value { value: ValueDef::Composite(x.map_context(|_| ())), context: () }, *cur)).map_err(|e| e.to_string()))?;
        let cur = &mut &*b;
        let r = <Composite<()> as DecodeAsFields>::decode_as_fields(cur, &mut mk().into_iter(), &c.types);
        agree("decoding the field list to a composite", r.map(|x| (Value { value: ValueDef::Composite(x), context: () }, *cur)).map_err(|e| e.to_string()))?;
        let cur = &mut &*b;
        let r = <Value<()> as DecodeAsFields>::decode_as_fields(cur, &mut mk().into_iter(), &c.types);
        agree("decoding the field list to a value", r.map(|x| (x, *cur)).map_err(|e| e.to_string()))?;
        steps(3);
    }
    // As a part of typed targets.
    match c.reg.get(id) {
        T::Seq(_) | T::Array(..) => {
            label = "typed container agrees";
            step();
            let cur = &mut &*b;
            let r = <Vec<Value<()>> as DecodeAsType>::decode_as_type(cur, id, &c.types).map(|v| (Value { value: ValueDef::Composite(Composite::Unnamed(v)), context: () }, *cur)).map_err(|e| e.to_string());
            agree("decoding to a list of values", r)?;
        }
        T::Tuple(t) if t.len() == 2 => {
            step();
            let cur = &mut &*b;
            let r = <(Value<()>, Value<()>) as DecodeAsType>::decode_as_type(cur, id, &c.types).map(|v| (Value { value: ValueDef::Composite(Composite::Unnamed(vec![v.0, v.1])), context: () }, *cur)).map_err(|e| e.to_string());
            agree("decoding to a pair of values", r)?;
        }
        T::Enum(v) if v.len() == 2 && v[0].0 == "None" && v[1].0 == "Some" => {
            step();
            let cur = &mut &*b;
            let r = <Option<Value<()>> as DecodeAsType>::decode_as_type(cur, id, &c.types)
                .map(|v| (match v { None => Value::unnamed_variant("None", vec![]), Some(x) => Value::unnamed_variant("Some", vec![x]) }, *cur))
                .map_err(|e| e.to_string());
            agree("decoding to an optional value", r)?;
        }
        _ => {}
    }
    Ok(if whole.is_ok() { label } else { "all ways refuse" })
}

// ------------------------------------------------------------------ T01
pub fn t01(tier: Tier) -> Vec<Item> {
    let mut items = per_type(tier, |c, id, depth, rec| {
        for_inputs(c, id, depth, rec.tier, &mut |b, d| {
            rec.case(|| desc(c, id, b), || t01_case(c, id, b, d));
        });
    });
    items.extend(big::inputs(tier, |c, id, b, d, rec| rec.case(|| desc(c, id, b), || t01_case(c, id, b, d))));
    items
}
fn t01_case(c: &Corpus, id: Id, b: &[u8], d: &Dec) -> Verdict {
    let plain = real_decode(c, id, b);
    step();
    let cur = &mut &*b;
    let traced = scale::tracing::decode_as_type(cur, id, &c.types);
    match (plain, traced) {
        (Ok((v, n)), Ok(w)) => {
            if v != w {
                return Err(format!("plain {} (labels may differ) traced {}", showv(&v), showv(&w)));
            }
            if let Dec::Done(want, _) = d {
                if *want != w {
                    return Err(format!("traced result {} (or its labels) is not {}", showv(&w), showv(want)));
                }
            }
            let used = check_suffix(b, cur)?;
            if n != used {
                return Err(format!("plain consumed {n}, traced {used} bytes"));
            }
            Ok("both accept")
        }
        (Err(_), Err(_)) => Ok("both refuse"),
        (Ok((v, _)), Err(e)) => Err(format!("only the tracing decoder refuses {}: {:?}", showv(&v), e)),
        (Err(e), Ok(w)) => Err(format!("only the tracing decoder accepts {}: {e}", showv(&w))),
    }
}

// ------------------------------------------------------------------ T02
struct Trace {
    path: Vec<String>,
    so_far: Option<Value<u32>>,
    /// the announced length of a sequence on the path was absurd; the exact report is unspecified
    absurd: bool,
}
impl Reg {
    /// Where decoding fails, according to the reference: None if it does not.
    fn trace(&self, id: Id, b: &[u8]) -> Option<Trace> {
        self.tr(id, b, false).err()
    }
    fn tr_many(&self, items: &mut dyn Iterator<Item = (Option<String>, Id)>, b: &[u8], cm: bool, named: bool) -> Result<usize, (Vec<String>, Composite<u32>, bool)> {
        let mut done: Vec<(String, Value<u32>)> = vec![];
        let mut at = 0;
        for (i, (name, id)) in items.enumerate() {
            match self.tr(id, &b[at..], cm) {
                Ok((v, n)) => {
                    done.push((name.unwrap_or_default(), v));
                    at += n;
                }
                Err(t) => {
                    let mut path = vec![if named { name.clone().unwrap() } else { format!("[{i}]") }];
                    path.extend(t.path);
                    if let Some(v) = t.so_far {
                        done.push((name.unwrap_or_default(), v));
                    }
                    let c = if named { Composite::Named(done) } else { Composite::Unnamed(done.into_iter().map(|x| x.1).collect()) };
                    return Err((path, c, t.absurd));
                }
            }
        }
        Ok(at)
    }
    fn tr(&self, id: Id, b: &[u8], cm: bool) -> Result<(Value<u32>, usize), Trace> {
        let leaf = || Trace { path: vec![], so_far: None, absurd: false };
        let whole = self.dec(id, b, cm);
        if let Dec::Done(v, n) = whole {
            return Ok((v, n));
        }
        let wrap = |e: (Vec<String>, Composite<u32>, bool)| Trace { path: e.0, so_far: Some(Value { value: ValueDef::Composite(e.1), context: id }), absurd: e.2 };
        let Some(t) = self.defs.get(id as usize) else { return Err(leaf()) };
        match t {
            T::Compact(i) => return Err(self.tr(*i, b, true).err().unwrap_or(leaf())),
            T::Struct(fs) if !cm || fs.len() == 1 => {
                let named = !fs.is_empty() && fs.iter().all(|f| f.0.is_some());
                Err(self.tr_many(&mut fs.iter().cloned(), b, cm, named).err().map(wrap).unwrap_or(leaf()))
            }
            T::Tuple(is) if !cm || is.len() == 1 => Err(self.tr_many(&mut is.iter().map(|i| (None, *i)), b, cm, false).err().map(wrap).unwrap_or(leaf())),
            _ if cm => Err(leaf()),
            T::Enum(vs) => {
                let Some(ix) = b.first() else { return Err(leaf()) };
                let Some((name, _, fs)) = vs.iter().find(|x| x.1 == *ix) else { return Err(leaf()) };
                let named = !fs.is_empty() && fs.iter().all(|f| f.0.is_some());
                match self.tr_many(&mut fs.iter().cloned(), &b[1..], false, named) {
                    Ok(_) => Err(leaf()),
                    Err((p, c, absurd)) => {
                        let mut path = vec![name.clone()];
                        path.extend(p);
                        Err(Trace { path, so_far: Some(Value { value: ValueDef::Variant(scale_value::Variant { name: name.clone(), values: c }), context: id }), absurd })
                    }
                }
            }
            T::Seq(i) => match seq_len(b) {
                None => Err(leaf()),
                Some((n, used)) => {
                    let mut it = (0..n).map(|_| (None, *i));
                    let mut t = self.tr_many(&mut it, &b[used..], false, false).err().map(wrap).unwrap_or(leaf());
                    t.absurd |= n > 50_000_000;
                    Err(t)
                }
            },
            T::Array(n, i) => {
                let mut it = (0..*n).map(|_| (None, *i));
                Err(self.tr_many(&mut it, b, false, false).err().map(wrap).unwrap_or(leaf()))
            }
            _ => Err(leaf()),
        }
    }
}
pub fn has_wide(v: &Value<u32>) -> bool {
    match &v.value {
        ValueDef::Primitive(Primitive::U256(_) | Primitive::I256(_)) => true,
        ValueDef::Composite(c) => c.values().any(has_wide),
        ValueDef::Variant(w) => w.values.values().any(has_wide),
        _ => false,
    }
}
pub fn t02(tier: Tier) -> Vec<Item> {
    let mut items = per_type(tier, |c, id, depth, rec| {
        for_inputs(c, id, depth, rec.tier, &mut |b, d| {
            if matches!(d, Dec::Done(..) | Dec::Skip) {
                return;
            }
            rec.case(|| desc(c, id, b), || t02_case(c, id, b));
        });
    });
    items.extend(big::inputs(tier, |c, id, b, d, rec| {
        if !matches!(d, Dec::Done(..) | Dec::Skip) {
            rec.case(|| desc(c, id, b), || t02_case(c, id, b));
        }
    }));
    items
}
fn t02_case(c: &Corpus, id: Id, b: &[u8]) -> Verdict {
    step();
    let Err(e) = scale::tracing::decode_as_type(&mut &*b, id, &c.types) else { return Err("accepted".into()) };
    let Some(want) = c.reg.trace(id, b) else { return Err("the reference finds no failure".into()) };
    use std::fmt::Write;
    let mut text = String::new();
    write!(text, "{e}").map_err(|_| "the error cannot be rendered as text".to_string())?;
    let _ = format!("{e:?}");
    if want.absurd {
        return Ok("absurd length: only renders");
    }
    let path: String = want.path.iter().map(|s| format!(".{s}")).collect();
    match &want.so_far {
        None => {
            if text.contains("Decoded so far") {
                return Err(format!("nothing was decoded, but the report is: {text}"));
            }
            Ok("failure at the top")
        }
        Some(v) => {
            let at = format!(" at {path}: ");
            if !text.contains(&at) {
                return Err(format!("decoding failed at {path}, but the report is: {text}"));
            }
            if has_wide(v) {
                return Ok("256 bit so far: only path checked");
            }
            let shown = crate::s::reference_print(v, &crate::s::Style { pretty: true, context: true, hex: true, ..Default::default() });
            let (_, got) = text.split_once("Decoded so far:\n\n").ok_or_else(|| format!("no decoded-so-far part in: {text}"))?;
            if got != shown {
                return Err(format!("decoded so far should be\n{shown}\nbut is\n{got}"));
            }
            Ok(if want.path.len() > 1 { "nested failure reported" } else { "failure reported" })
        }
    }
}
