//! X: what the parts of the library promise together.
use crate::big;
use crate::corpus::{corpus, Corpus};
use crate::e::real_encode;
use crate::engine::*;
use crate::inputs::for_inputs;
use crate::tys::*;
use scale_value::stringify::{from_str, to_string, to_writer_custom};
use scale_value::{scale, Composite, Value, ValueDef, Variant};
use serde::Deserialize;

/// The ways through text.
fn texts(v: &Value<u32>) -> Result<Vec<(&'static str, String)>, String> {
    let mut out = vec![("display", v.to_string()), ("to_string", to_string(v))];
    let mut put = |what: &'static str, f: &dyn Fn(&mut String) -> std::fmt::Result| {
        let mut s = String::new();
        f(&mut s).map_err(|_| format!("{what}: printing fails"))?;
        out.push((what, s));
        Ok::<(), String>(())
    };
    put("compact", &|s| to_writer_custom().compact().write(v, s))?;
    put("pretty", &|s| to_writer_custom().pretty().write(v, s))?;
    put("indented", &|s| to_writer_custom().pretty().indent_by("\t ").leading_indent("  ").write(v, s))?;
    out.push(("alternate", format!("{v:#}")));
    Ok(out)
}

/// A message is decoded, taken through text and through serde, and encoded again.
fn message(c: &Corpus, id: Id, b: &[u8], d: &Dec) -> Verdict {
    let Dec::Done(want, _) = d else { return Ok("skipped") };
    step();
    let canonical = c.reg.encode(id, want).ok_or("no reference encoding")?;
    let v = scale::decode_as_type(&mut &*b, id, &c.types).map_err(|e| format!("refused: {e}"))?;
    let same = |what: &str, w: &Value<()>| -> Result<(), String> {
        let got = real_encode(c, id, w).map_err(|e| format!("{} after {what} is {}, which does not encode: {e}", showv(&v), showv(w)))?;
        if got != canonical {
            return Err(format!("{} after {what} is {}, which encodes to {} instead of {}", showv(&v), showv(w), hex(&got), hex(&canonical)));
        }
        Ok(())
    };
    let mut seen: Vec<(&str, String)> = vec![];
    for (what, t) in texts(&v)? {
        if seen.iter().any(|(_, x)| *x == t) {
            continue;
        }
        steps(2);
        let lead = t.len() - t.trim_start().len();
        let (r, rest) = from_str(&t[lead..]);
        let w = r.map_err(|e| format!("{} printed ({what}) as {t:?} is refused: {e}", showv(&v)))?;
        if !rest.is_empty() {
            return Err(format!("{} printed ({what}) as {t:?} is parsed but for {rest:?}", showv(&v)));
        }
        same(what, &w)?;
        seen.push((what, t));
    }
    // through serde
    steps(2);
    let w = scale_value::serde::from_value::<_, Value<()>>(v.clone()).map_err(|e| format!("{} as a value: {e}", showv(&v)))?;
    same("reading as a value", &w)?;
    let w = ValueDef::<()>::deserialize(v.clone()).map_err(|e| format!("{} as a definition: {e}", showv(&v)))?;
    same("reading as a definition", &Value { value: w, context: () })?;
    match v.value.clone() {
        ValueDef::Composite(x) => {
            let w = Composite::<()>::deserialize(x).map_err(|e| format!("{} as a composite: {e}", showv(&v)))?;
            same("reading as a composite", &Value { value: ValueDef::Composite(w), context: () })?;
            Ok("composite")
        }
        ValueDef::Variant(x) => {
            let w = Variant::<()>::deserialize(x).map_err(|e| format!("{} as a variant: {e}", showv(&v)))?;
            same("reading as a variant", &Value { value: ValueDef::Variant(w), context: () })?;
            Ok("variant")
        }
        ValueDef::BitSequence(_) => Ok("bits"),
        ValueDef::Primitive(_) => Ok("primitive"),
    }
}
pub fn x01(tier: Tier) -> Vec<Item> {
    let one = |c: &Corpus, id: Id, b: &[u8], d: &Dec, rec: &mut Rec| {
        if matches!(d, Dec::Done(_, n) if *n == b.len()) && !c.reg.has_256(id) {
            rec.case(|| format!("type #{id} {} bytes {}", c.reg.show(id), hex(b)), || message(c, id, b, d));
        }
    };
    let mut items = big::inputs(tier, move |c, id, b, d, rec| one(c, id, b, d, rec));
    let c = corpus(tier);
    items.extend(c.ids.iter().map(|&(id, depth)| {
        item(c.reg.show(id), move |rec: &mut Rec| {
            for_inputs(c, id, depth, rec.tier, &mut |b, d| one(c, id, b, d, rec));
        })
    }));
    items
}
