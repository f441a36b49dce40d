//! E09: where an encoding error says the trouble is.
use crate::big;
use crate::corpus::{corpus, Corpus};
use crate::engine::*;
use crate::tys::*;
use crate::vals as w;
use crate::vals::V;
use scale_encode::error::Location;
use scale_encode::EncodeAsFields;
use scale_type_resolver::Field;
use scale_value::{scale, Composite, Value, ValueDef};

pub type Path = Vec<usize>;

fn parts<X>(v: &Value<X>) -> Option<&Composite<X>> {
    match &v.value {
        ValueDef::Composite(c) => Some(c),
        ValueDef::Variant(x) => Some(&x.values),
        _ => None,
    }
}
fn count<X>(v: &Value<X>) -> usize {
    1 + parts(v).map_or(0, |c| c.values().map(count).sum())
}
fn child<X>(c: &Composite<X>, k: usize) -> &Value<X> {
    c.values().nth(k).unwrap()
}
/// The paths of all nodes.
pub fn paths(v: &V) -> Vec<Path> {
    let mut out = vec![vec![]];
    if let Some(c) = parts(v) {
        for k in 0..c.len() {
            for mut p in paths(child(c, k)) {
                p.insert(0, k);
                out.push(p);
            }
        }
    }
    out
}
pub fn put(v: &mut V, p: &[usize], x: V) {
    let Some((k, rest)) = p.split_first() else {
        *v = x;
        return;
    };
    let c = match &mut v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(y) => &mut y.values,
        _ => unreachable!(),
    };
    match c {
        Composite::Named(xs) => put(&mut xs[*k].1, rest, x),
        Composite::Unnamed(xs) => put(&mut xs[*k], rest, x),
    }
}
/// Where the locations lead to: a layer with a single part in it need not be mentioned.
pub fn lead<X>(v: &Value<X>, locs: &[Location]) -> Vec<Path> {
    fn go<X>(v: &Value<X>, locs: &[Location], at: &mut Path, out: &mut Vec<Path>) {
        if locs.is_empty() {
            out.push(at.clone());
        }
        let Some(c) = parts(v) else { return };
        for k in 0..c.len() {
            let x = child(c, k);
            let named = match c {
                Composite::Named(xs) => locs.first() == Some(&Location::field(xs[k].0.clone())),
                Composite::Unnamed(_) => false,
            };
            at.push(k);
            if named || locs.first() == Some(&Location::idx(k)) {
                go(x, &locs[1..], at, out);
            }
            if c.len() == 1 && matches!(v.value, ValueDef::Composite(_)) {
                go(x, locs, at, out);
            }
            at.pop();
        }
    }
    let mut out = vec![];
    go(v, locs, &mut vec![], &mut out);
    out
}

/// One part (at `ps`, or one of several) does not fit: the error must lead to it or into it.
fn case(c: &Corpus, id: Id, v: &V, ps: &[Path]) -> Verdict {
    step();
    let mut buf = vec![];
    let whole = scale::encode_as_type(v, id, &c.types, &mut buf);
    let judge = |what: &str, e: scale_encode::Error| -> Result<&'static str, String> {
        let mut locs: Vec<Location> = e.context().path().locations().cloned().collect();
        locs.reverse();
        let to = lead(v, &locs);
        if to.is_empty() {
            return Err(format!("{}{what} is refused with: {e}; there is no such place in the value", showv(v)));
        }
        if to.iter().any(|q| ps.contains(q)) {
            return Ok("the part itself");
        }
        if to.iter().any(|q| ps.iter().any(|p| q.starts_with(p))) {
            return Ok("within the part");
        }
        Err(format!("{}{what} is refused with: {e}; that is at {:?}, but what does not fit is at {ps:?}", showv(v), to[0]))
    };
    let out = match whole {
        Ok(_) => "encodes all the same",
        Err(e) => judge("", e)?,
    };
    // the same through a list of fields
    if let (ValueDef::Composite(comp), T::Struct(fs)) = (&v.value, c.reg.get(id)) {
        if !ps.iter().any(|p| p.is_empty()) {
            step();
            let mut fields = fs.iter().map(|(n, i)| Field { name: n.as_deref(), id: *i });
            if let Err(e) = comp.encode_as_fields_to(&mut fields, &c.types, &mut vec![]) {
                judge(" as fields", e)?;
            }
        }
    }
    Ok(out)
}
fn misfits() -> Vec<V> {
    vec![
        w::b(true),
        w::ch('q'),
        w::s("zz"),
        w::u(u128::MAX),
        w::i(-1),
        w::un(vec![]),
        w::un((0..7).map(|k| w::s(&k.to_string())).collect()),
        w::nm(vec![("zz", w::u(1)), ("y", w::b(true))]),
        w::var("Nope", w::cu(vec![])),
        w::bits("101"),
        w::u(2),
        w::i(-70_000),
    ]
}

fn reshaped(v: &V, p: &Path) -> Vec<(String, V)> {
    let mut at = v;
    for k in p {
        at = child(parts(at).unwrap(), *k);
    }
    let Some(c) = parts(at) else { return vec![] };
    let mut out = vec![];
    let mut add = |what: String, c: Composite<()>| {
        let x = match &at.value {
            ValueDef::Variant(y) => w::var(&y.name, c),
            _ => w::v(ValueDef::Composite(c)),
        };
        let mut m = v.clone();
        put(&mut m, p, x);
        out.push((what, m));
    };
    for k in 0..c.len() {
        match c {
            Composite::Named(xs) => {
                let mut y = xs.clone();
                y.remove(k);
                add(format!("part {k} missing"), Composite::Named(y));
                let mut y = xs.clone();
                y[k].0 += "x";
                add(format!("part {k} renamed"), Composite::Named(y));
            }
            Composite::Unnamed(xs) => {
                let mut y = xs.clone();
                y.remove(k);
                add(format!("part {k} missing"), Composite::Unnamed(y));
                let mut y = xs.clone();
                y.push(xs[k].clone());
                add(format!("part {k} repeated"), Composite::Unnamed(y));
            }
        }
    }
    out
}

/// The same in other shapes that fit: lists with names (the same for each item, or not), structs
/// without, bits as lists of flags or numbers.
const NAMES: [&str; 10] = ["n0", "_a", "First", "b_", "N0", "r#type", " a b ", "0", "", "\u{c9}t\u{e9}"];
fn dressed(r: &Reg, id: Id, v: &V, how: usize) -> V {
    let comp = |fs: &[F], c: &Composite<()>| -> Composite<()> {
        let xs: Vec<V> = c.values().zip(fs).map(|(x, f)| dressed(r, f.1, x, how)).collect();
        match c {
            Composite::Named(ys) if how != 1 => Composite::Named(ys.iter().map(|y| y.0.clone()).zip(xs).collect()),
            Composite::Unnamed(_) if how != 1 && fs.iter().all(|f| f.0.is_none()) => call(xs, how),
            _ => Composite::Unnamed(xs),
        }
    };
    fn call(xs: Vec<V>, how: usize) -> Composite<()> {
        Composite::Named(xs.into_iter().enumerate().map(|(k, x)| (if how == 0 { "a".into() } else { NAMES[k % NAMES.len()].to_string() }, x)).collect())
    }
    match (r.get(id), &v.value) {
        (T::Struct(fs), ValueDef::Composite(c)) => w::v(ValueDef::Composite(comp(fs, c))),
        (T::Tuple(is), ValueDef::Composite(c)) => {
            let fs: Vec<F> = is.iter().map(|i| un(*i)).collect();
            w::v(ValueDef::Composite(comp(&fs, c)))
        }
        (T::Enum(vs), ValueDef::Variant(x)) => match vs.iter().find(|y| y.0 == x.name) {
            Some((_, _, fs)) => w::var(&x.name, comp(fs, &x.values)),
            None => v.clone(),
        },
        (T::Seq(i) | T::Array(_, i), ValueDef::Composite(c)) => {
            let xs: Vec<V> = c.values().map(|x| dressed(r, *i, x, how)).collect();
            w::v(ValueDef::Composite(if how == 1 { Composite::Unnamed(xs) } else { call(xs, how) }))
        }
        (T::Bits(..), ValueDef::BitSequence(b)) => {
            let xs: Vec<V> = b
                .iter()
                .map(|x| match how {
                    0 => w::b(x),
                    1 => w::i(x as i128),
                    _ => w::u(x as u128),
                })
                .collect();
            w::v(ValueDef::Composite(if how == 1 { Composite::Unnamed(xs) } else { call(xs, how) }))
        }
        _ => v.clone(),
    }
}

pub fn e09(tier: Tier) -> Vec<Item> {
    let c = corpus(tier);
    let mut items: Vec<Item> = c
        .ids
        .iter()
        .map(|&(id, depth)| {
            item(c.reg.show(id), move |rec: &mut Rec| {
                let lim = crate::inputs::limits(rec.tier, depth);
                let bad = misfits();
                let mut vs: Vec<V> = vec![];
                for (nth, v) in c.reg.domain(id, lim.rich, 8, lim.values).into_iter().enumerate() {
                    let v = v.map_context(|_| ());
                    for how in 0..if nth < rec.tier.pick(12, 60) { 3 } else { 0 } {
                        let d = dressed(&c.reg, id, &v, how);
                        if d != v {
                            vs.push(d);
                        }
                    }
                    vs.push(v);
                }
                for v in vs {
                    let ps: Vec<Path> = paths(&v).into_iter().take(rec.tier.pick(24, 60)).collect();
                    for p in &ps {
                        for x in &bad {
                            let mut m = v.clone();
                            put(&mut m, p, x.clone());
                            rec.case(|| format!("type #{id} {} value {} with {} at {p:?}", c.reg.show(id), showv(&v), showv(x)), || case(c, id, &m, &[p.clone()]));
                        }
                    }
                    // parts missing, in surplus or called something else
                    for p in &ps {
                        for (what, m) in reshaped(&v, p) {
                            rec.case(|| format!("type #{id} {} value {} with {what} at {p:?}", c.reg.show(id), showv(&v)), || case(c, id, &m, &[p.clone()]));
                        }
                    }
                    // two of them
                    for (k, p) in ps.iter().enumerate().take(12) {
                        for q in ps.iter().skip(k + 1).take(12) {
                            if q.starts_with(p) {
                                continue;
                            }
                            for (x, y) in [(2, 3), (5, 2), (8, 6), (9, 9)] {
                                let mut m = v.clone();
                                put(&mut m, p, bad[x].clone());
                                put(&mut m, q, bad[y].clone());
                                rec.case(|| format!("type #{id} {} value {} with two misfits", c.reg.show(id), showv(&m)), || case(c, id, &m, &[p.clone(), q.clone()]));
                            }
                        }
                    }
                }
            })
        })
        .collect();
    items.extend(big::values(tier, |c, id, v, _, rec| {
        let v = v.clone().map_context(|_| ());
        // (What the effort of refusing grows to with the depth is E06's matter.)
        fn deep(v: &V, d: usize) -> bool {
            d == 0 || parts(v).is_some_and(|c| c.values().any(|x| deep(x, d - 1)))
        }
        if deep(&v, 8) {
            return;
        }
        let mut vs = vec![v];
        let other = dressed(&c.reg, id, &vs[0], 2);
        // (Larger ones cost too much.)
        if other != vs[0] && count(&other) < 300 {
            vs.push(other);
        }
        for v in vs {
        let ps = paths(&v);
        let n = ps.len();
        let bad = misfits();
        let mut pick: Vec<usize> = if n <= 24 { (0..n).collect() } else { (0..8).chain(n - 8..n).chain((1..8).map(|k| n * k / 8)).collect() };
        if n > 2000 {
            pick = vec![1, n / 2, n - 1];
        }
        for k in pick {
            for x in [2, 6] {
                let p = &ps[k];
                let mut m = v.clone();
                put(&mut m, p, bad[x].clone());
                rec.case(|| format!("type #{id} {} with {} at {p:?} of {n} parts", c.reg.show(id), showv(&bad[x])), || case(c, id, &m, &[p.clone()]));
            }
        }
        }
    }));
    items
}
