//! A: looking things up inside values, mapping contexts, constructors and accessors.
use crate::engine::{item, step, steps, Item, Rec, Tier, Verdict};
use crate::vals::{self as w, V};
use scale_value::{At, BitSequence, Composite, Primitive, Value, ValueDef, Variant};

// ------------------------------------------------------------------ A01

#[derive(Clone, Copy, PartialEq, Debug)]
enum Loc<'l> {
    Pos(usize),
    Name(&'l str),
}

/// The children of a node, with their names where they have any.
fn kids<C>(x: &ValueDef<C>) -> Vec<(Option<&str>, &Value<C>)> {
    let of = |c: &'_ Composite<C>| -> Vec<(Option<*const str>, *const Value<C>)> {
        match c {
            Composite::Named(xs) => xs.iter().map(|(n, x)| (Some(n.as_str() as *const str), x as *const _)).collect(),
            Composite::Unnamed(xs) => xs.iter().map(|x| (None, x as *const _)).collect(),
        }
    };
    let raw = match x {
        ValueDef::Composite(c) => of(c),
        ValueDef::Variant(v) => of(&v.values),
        _ => vec![],
    };
    // SAFETY: the pointers come from `x`, which outlives the result.
    raw.into_iter().map(|(n, p)| unsafe { (n.map(|n| &*n), &*p) }).collect()
}

fn model_at<'a, C>(x: &'a ValueDef<C>, l: Loc) -> Option<&'a Value<C>> {
    let ks = kids(x);
    match l {
        Loc::Pos(n) => ks.iter().enumerate().filter(|(k, _)| *k == n).map(|(_, c)| c.1).next(),
        Loc::Name(s) => ks.iter().filter(|c| c.0 == Some(s)).map(|c| c.1).next(),
    }
}

/// One lookup through the real API, in the given spelling of the location.
fn real_at<C, T: At<C>>(x: &T, l: Loc, spelling: usize) -> Option<*const Value<C>> {
    step();
    let found = match l {
        Loc::Pos(n) => match spelling {
            0 => x.at(n),
            1 => x.at(&n),
            _ => x.at(&&n),
        },
        Loc::Name(s) => match spelling {
            0 => x.at(s),
            1 => x.at(s.to_string()),
            2 => x.at(&s.to_string()),
            _ => x.at(&s),
        },
    };
    found.map(|x| x as *const _)
}

fn ptr<C>(x: Option<&Value<C>>) -> Option<*const Value<C>> {
    x.map(|x| x as *const _)
}

/// A chain of lookups written as one would write it: `x.at(a).at(b)...`.
fn real_chain(x: Option<&Value<u32>>, path: &[Loc]) -> Option<*const Value<u32>> {
    match path {
        [] => ptr(x),
        [Loc::Pos(n), rest @ ..] => {
            step();
            real_chain(x.at(*n), rest)
        }
        [Loc::Name(s), rest @ ..] => {
            step();
            real_chain(x.at(*s), rest)
        }
    }
}

fn locs(tier: Tier) -> Vec<Loc<'static>> {
    let mut l = vec![Loc::Pos(0), Loc::Pos(1), Loc::Pos(2), Loc::Name("a"), Loc::Name("b"), Loc::Name(""), Loc::Name("0")];
    if tier == Tier::Thorough {
        l.extend([Loc::Pos(3), Loc::Name("A"), Loc::Name("é")]);
    }
    l
}

fn lookups(x: &V, rec: &mut Rec) {
    let ls = locs(rec.tier);
    let depth = rec.tier.pick(3, 4);
    let x = w::number(x);
    // single lookups, everywhere, in every spelling and from every kind of starting point
    let more = [Loc::Pos(3), Loc::Pos(4), Loc::Pos(usize::MAX), Loc::Pos(1 << 32), Loc::Name("1"), Loc::Name("é"), Loc::Name("a "), Loc::Name("A"), Loc::Name("V"), Loc::Name("a b")];
    let all: Vec<Loc> = ls.iter().chain(&more).copied().collect();
    for &l in &all {
        rec.case(
            || format!("{:?} at {l:?}", w::strip(&x)),
            || {
                let want = model_at(&x.value, l);
                for sp in 0..4 {
                    let from: Option<&Value<u32>> = Some(&x);
                    let mut got = vec![("value", real_at(&x, l, sp)), ("some value", real_at(&from, l, sp))];
                    let none: Option<&Value<u32>> = None;
                    if let Some(r) = real_at(&none, l, sp) {
                        return Err(format!("looking inside nothing found {r:?}"));
                    }
                    match &x.value {
                        ValueDef::Composite(c) => {
                            got.push(("composite", real_at(c, l, sp)));
                            got.push(("some composite", real_at(&Some(c), l, sp)));
                        }
                        ValueDef::Variant(v) => {
                            got.push(("variant", real_at(v, l, sp)));
                            got.push(("some variant", real_at(&Some(v), l, sp)));
                            got.push(("fields of the variant", real_at(&v.values, l, sp)));
                        }
                        _ => {}
                    }
                    for (from, g) in got {
                        if g != ptr(want) {
                            return Err(format!("looking up {l:?} (spelling {sp}) from the {from} gives {g:?}, not {want:?}"));
                        }
                    }
                }
                Ok(match (want, l) {
                    (None, _) => "nothing there",
                    (Some(_), Loc::Pos(_)) => "found by position",
                    (Some(_), Loc::Name(_)) => "found by name",
                })
            },
        );
    }
    // chains: all sequences of locations
    let mut chain: Vec<usize> = vec![];
    chains(&x, &ls, depth, &mut chain, rec);
}

fn chains(x: &Value<u32>, ls: &[Loc<'static>], depth: usize, chain: &mut Vec<usize>, rec: &mut Rec) {
    if chain.len() >= 2 {
        let path: Vec<Loc> = chain.iter().map(|k| ls[*k]).collect();
        rec.case(
            || format!("{:?} at {path:?}", w::strip(x)),
            || {
                let mut want: Option<&Value<u32>> = Some(x);
                for l in &path {
                    want = want.and_then(|x| model_at(&x.value, *l));
                }
                step();
                let got = match path[0] {
                    Loc::Pos(n) => real_chain(x.at(n), &path[1..]),
                    Loc::Name(s) => real_chain(x.at(s), &path[1..]),
                };
                if got != ptr(want) {
                    return Err(format!("looking up {path:?} gives {got:?}, not {want:?}"));
                }
                Ok(if want.is_some() { "chain leads somewhere" } else { "chain leads nowhere" })
            },
        );
    }
    if chain.len() < depth {
        for k in 0..ls.len() {
            chain.push(k);
            // Chains which already lead nowhere are followed one step further only.
            let path: Vec<Loc> = chain[..chain.len() - 1].iter().map(|k| ls[*k]).collect();
            let mut here: Option<&Value<u32>> = Some(x);
            for l in &path {
                here = here.and_then(|x| model_at(&x.value, *l));
            }
            if here.is_some() || chain.len() <= 2 {
                chains(x, ls, depth, chain, rec);
            }
            chain.pop();
        }
    }
}

fn lookup_values(tier: Tier) -> Vec<V> {
    let few = w::few();
    let mut out = few.clone();
    out.push(w::p(Primitive::U256([1; 32])));
    for names in [["a", "b", "0"], ["a", "a", "b"], ["", "a", ""], ["b", "1", "a"], ["é", "a ", "A"], ["a b", "V", "a"]] {
        let l1 = w::containers(&few[..2], 3, &names, &["V", "a"]);
        let kids: Vec<V> = w::containers(&few[..1], 2, &names, &["a"]).into_iter().chain(few[1..2].to_vec()).collect();
        let l2 = w::containers(&kids, 2, &names, &["V"]);
        out.extend(l1);
        out.extend(l2.clone());
        let n = l2.len();
        let l3: Vec<V> = l2.into_iter().skip(3).step_by(tier.pick(n / 12, n / 60)).collect();
        out.extend(w::containers(&l3, tier.pick(1, 2), &names, &["b"]));
    }
    for n in [4usize, 5, 16, 17, 64] {
        let xs: Vec<V> = (0..n).map(|k| w::u(k as u128)).collect();
        out.push(w::un(xs.clone()));
        out.push(w::nm(xs.iter().map(|x| ("a", x.clone())).collect()));
        let names: Vec<String> = (0..n).map(|k| format!("{}", n - 1 - k)).collect();
        out.push(w::nm(names.iter().map(|n| n.as_str()).zip(xs).collect()));
    }
    out
}

/// In one value: every position and every name at every level, from the top by a chain of lookups.
fn all_lookups(x: &V, rec: &mut Rec) {
    let x = &w::number(x);
    rec.case(
        || format!("everything in {:?}", w::strip(x)),
        || {
            let mut budget = 600;
            let mut path = vec![];
            everywhere(x, x, &mut path, &mut budget)?;
            Ok(if kids(&x.value).is_empty() { "nothing there" } else { "found by position" })
        },
    );
}
fn everywhere<'a>(top: &'a Value<u32>, here: &'a Value<u32>, path: &mut Vec<Loc<'a>>, budget: &mut u32) -> Result<(), String> {
    let ks = kids(&here.value);
    let n = ks.len();
    let mut tries: Vec<Loc<'a>> = (0..n + 2).filter(|k| n < 300 || *k < 3 || k + 4 > n || k % 64 < 2).map(Loc::Pos).collect();
    tries.extend([Loc::Pos(usize::MAX), Loc::Pos(256 + n / 2), Loc::Pos(1 << 32), Loc::Pos((1 << 16) + n / 2), Loc::Name(""), Loc::Name("0"), Loc::Name("surely not")]);
    tries.extend(ks.iter().filter_map(|k| k.0).map(Loc::Name));
    for l in tries {
        if *budget == 0 {
            return Ok(());
        }
        *budget -= 1;
        let want = ptr(model_at(&here.value, l));
        for sp in 0..4 {
            step();
            if real_at(here, l, sp) != want {
                return Err(format!("{l:?} (spelling {sp}) at {path:?} does not lead to {want:?}"));
            }
        }
        path.push(l);
        step();
        let got = real_chain(Some(top), path);
        if got != want {
            return Err(format!("{path:?} leads to {got:?}, not {want:?}"));
        }
        path.pop();
    }
    for (k, (name, x)) in ks.into_iter().enumerate().take(40) {
        path.push(match name {
            Some(name) if model_at(&here.value, Loc::Name(name)).is_some_and(|y| std::ptr::eq(y, x)) && k % 2 == 0 => Loc::Name(name),
            _ => Loc::Pos(k),
        });
        everywhere(top, x, path, budget)?;
        path.pop();
    }
    Ok(())
}

pub fn a01(_tier: Tier) -> Vec<Item> {
    let mut items = w::spread("lookups", 64, lookup_values, lookups);
    items.extend(crate::s::sized(_tier, all_lookups));
    items.push(item("many fields with repeated names", |rec: &mut Rec| {
        for n in (0..=40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
            for m in [1usize, 2, 3, 7, 16, 64] {
                let names: Vec<String> = (0..n).map(|k| format!("{}", (k * k + 3) % m)).collect();
                let v = w::nm(names.iter().enumerate().map(|(k, x)| (x.as_str(), w::u(k as u128))).collect());
                all_lookups(&v, rec);
            }
        }
    }));
    items
}

// ------------------------------------------------------------------ A02

#[derive(Clone, Debug, PartialEq)]
struct Tag(String, u32);

fn map_model(x: &Value<u32>, f: &dyn Fn(u32) -> Tag) -> Value<Tag> {
    let value = map_def(&x.value, f);
    Value { value, context: f(x.context) }
}
fn map_def(x: &ValueDef<u32>, f: &dyn Fn(u32) -> Tag) -> ValueDef<Tag> {
    match x {
        ValueDef::Composite(c) => ValueDef::Composite(map_comp(c, f)),
        ValueDef::Variant(v) => ValueDef::Variant(Variant { name: v.name.clone(), values: map_comp(&v.values, f) }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
    }
}
fn map_comp(c: &Composite<u32>, f: &dyn Fn(u32) -> Tag) -> Composite<Tag> {
    match c {
        Composite::Named(xs) => Composite::Named(xs.iter().map(|(n, x)| (n.clone(), map_model(x, f))).collect()),
        Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(|x| map_model(x, f)).collect()),
    }
}

// Comparison of results, written out here so that it doesn't depend on the crate's own equality.
fn eq_v<C: PartialEq>(a: &Value<C>, b: &Value<C>) -> bool {
    a.context == b.context && eq_d(&a.value, &b.value)
}
fn eq_d<C: PartialEq>(a: &ValueDef<C>, b: &ValueDef<C>) -> bool {
    match (a, b) {
        (ValueDef::Composite(a), ValueDef::Composite(b)) => eq_c(a, b),
        (ValueDef::Variant(a), ValueDef::Variant(b)) => a.name == b.name && eq_c(&a.values, &b.values),
        (ValueDef::BitSequence(a), ValueDef::BitSequence(b)) => a.iter().collect::<Vec<bool>>() == b.iter().collect::<Vec<bool>>(),
        (ValueDef::Primitive(a), ValueDef::Primitive(b)) => eq_p(a, b),
        _ => false,
    }
}
fn eq_c<C: PartialEq>(a: &Composite<C>, b: &Composite<C>) -> bool {
    match (a, b) {
        (Composite::Named(a), Composite::Named(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && eq_v(&a.1, &b.1)),
        (Composite::Unnamed(a), Composite::Unnamed(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq_v(a, b)),
        _ => false,
    }
}
fn eq_p(a: &Primitive, b: &Primitive) -> bool {
    match (a, b) {
        (Primitive::Bool(a), Primitive::Bool(b)) => a == b,
        (Primitive::Char(a), Primitive::Char(b)) => a == b,
        (Primitive::String(a), Primitive::String(b)) => a == b,
        (Primitive::U128(a), Primitive::U128(b)) => a == b,
        (Primitive::I128(a), Primitive::I128(b)) => a == b,
        (Primitive::U256(a), Primitive::U256(b)) => a == b,
        (Primitive::I256(a), Primitive::I256(b)) => a == b,
        _ => false,
    }
}

/// Contexts in a node and below, however ordered.
fn contexts(x: &Value<u32>, out: &mut Vec<u32>) {
    out.push(x.context);
    for (_, k) in kids(&x.value) {
        contexts(k, out);
    }
}

fn mapping(x: &V, rec: &mut Rec) {
    let x = w::number(x);
    rec.case(
        || format!("{:?}", w::strip(&x)),
        || {
            let seen = std::cell::RefCell::new(Vec::<u32>::new());
            let f = |old: u32| Tag(format!("was {old}"), old.wrapping_mul(7));
            let log = |old: u32| {
                seen.borrow_mut().push(old);
                f(old)
            };
            let once = |what: &str, mut all: Vec<u32>| -> Result<(), String> {
                let mut s = seen.take();
                s.sort();
                all.sort();
                if s != all {
                    return Err(format!("mapping contexts of the {what} calls the function for {s:?}, not {all:?}"));
                }
                Ok(())
            };
            let mut all = vec![];
            contexts(&x, &mut all);
            let inner: Vec<u32> = all[1..].to_vec();

            steps(2);
            let got = x.clone().map_context(log);
            once("value", all.clone())?;
            if !eq_v(&got, &map_model(&x, &f)) {
                return Err(format!("mapping contexts of {x:?} gives {got:?}"));
            }
            let got = x.clone().remove_context();
            if !eq_v(&got, &w::strip(&x)) {
                return Err(format!("removing contexts gives {got:?}"));
            }
            steps(1);
            let got = x.value.clone().map_context(log);
            once("definition", inner.clone())?;
            if !eq_d(&got, &map_def(&x.value, &f)) {
                return Err(format!("mapping contexts of the definition of {x:?} gives {got:?}"));
            }
            match &x.value {
                ValueDef::Composite(c) => {
                    steps(1);
                    let got = c.clone().map_context(log);
                    once("composite", inner)?;
                    if !eq_c(&got, &map_comp(c, &f)) {
                        return Err(format!("mapping contexts of the composite {c:?} gives {got:?}"));
                    }
                }
                ValueDef::Variant(v) => {
                    steps(1);
                    let got = v.clone().map_context(log);
                    once("variant", inner)?;
                    if got.name != v.name || !eq_c(&got.values, &map_comp(&v.values, &f)) {
                        return Err(format!("mapping contexts of the variant {v:?} gives {got:?}"));
                    }
                }
                _ => {}
            }
            // mapping in two stages is the same as mapping once
            steps(2);
            let two = x.clone().map_context(|c| (c, c ^ 0x55)).map_context(|(a, b)| Tag(format!("was {a}"), (b ^ 0x55).wrapping_mul(7)));
            if !eq_v(&two, &map_model(&x, &f)) {
                return Err(format!("mapping contexts of {x:?} in two stages gives {two:?}"));
            }
            Ok(match (&x.value, all.len()) {
                (ValueDef::Composite(_) | ValueDef::Variant(_), 1) => "empty container",
                (ValueDef::Composite(_), _) => "composite",
                (ValueDef::Variant(_), _) => "variant",
                _ => "leaf",
            })
        },
    );
}

fn plain_values(tier: Tier) -> Vec<V> {
    let mut few = w::few();
    few.push(w::p(Primitive::U256([7; 32])));
    few.push(w::p(Primitive::I256([250; 32])));
    let names = ["a", "b", "", "a", "é"];
    let vn = ["V", "", "a"];
    let mut out = w::scalars(Tier::Quick);
    out.extend(few.clone());
    out.extend(w::containers(&few, tier.pick(3, 4), &names, &vn));
    for same in [["", "", "a", "a", "b"], ["a", "a", "a", "a", "a"], ["b", "a", "a", "", ""]] {
        out.extend(w::containers(&few[..3], 4, &same, &vn[..1]));
    }
    let mut k2 = w::containers(&few[..2], 2, &names, &vn[..1]);
    k2.push(few[3].clone());
    out.extend(w::containers(&k2, 2, &names[1..], &vn[..1]));
    let k3: Vec<V> = w::containers(&w::containers(&few[..1], 1, &names, &vn[..1]), 2, &names, &vn[..1]);
    let k3: Vec<V> = k3.into_iter().step_by(tier.pick(5, 1)).collect();
    out.extend(w::containers(&k3, 2, &names, &vn[..1]));
    // long and deep ones
    for n in [16usize, 17, 100, 300] {
        out.push(w::un((0..n).map(|k| few[k % few.len()].clone()).collect()));
        out.push(w::var("V", w::cn((0..n).map(|k| (names[k % 5], few[k % few.len()].clone())).collect())));
    }
    for n in [8usize, 40] {
        let mut x = w::s("core");
        for k in 0..n {
            let fs = w::frames(&x, "n");
            x = fs[(k * 3) % fs.len().min(5)].clone();
            if kids(&x.value).len() > 2 {
                x = w::un(vec![kids(&x.value)[0].1.clone()]);
            }
        }
        out.push(x);
    }
    out
}

pub fn a02(_tier: Tier) -> Vec<Item> {
    let mut items = w::spread("contexts", 32, plain_values, mapping);
    items.extend(crate::s::sized(_tier, mapping));
    items
}

// ------------------------------------------------------------------ A03

fn ck(what: &str, got: &V, want: &V) -> Result<(), String> {
    step();
    if eq_v(got, want) {
        Ok(())
    } else {
        Err(format!("{what} gives {got:?}, not {want:?}"))
    }
}

fn views<C>(x: &Value<C>) -> Result<&'static str, String> {
    steps(5);
    let p = match &x.value {
        ValueDef::Primitive(p) => Some(p),
        _ => None,
    };
    let want = (
        match p {
            Some(Primitive::Bool(b)) => Some(*b),
            _ => None,
        },
        match p {
            Some(Primitive::Char(b)) => Some(*b),
            _ => None,
        },
        match p {
            Some(Primitive::String(b)) => Some(b.as_str()),
            _ => None,
        },
        match p {
            Some(Primitive::U128(b)) => Some(*b),
            _ => None,
        },
        match p {
            Some(Primitive::I128(b)) => Some(*b),
            _ => None,
        },
    );
    let got = (x.as_bool(), x.as_char(), x.as_str(), x.as_u128(), x.as_i128());
    if got != want {
        return Err(format!("the views are {got:?}, not {want:?}"));
    }
    if let Some(p) = p {
        steps(5);
        let got = (p.as_bool(), p.as_char(), p.as_str(), p.as_u128(), p.as_i128());
        if got != want {
            return Err(format!("the views of the primitive are {got:?}, not {want:?}"));
        }
    }
    Ok(match want {
        (Some(_), ..) => "bool",
        (_, Some(_), ..) => "char",
        (_, _, Some(_), ..) => "string",
        (_, _, _, Some(_), _) => "unsigned",
        (_, _, _, _, Some(_)) => "signed",
        _ => "no view",
    })
}

fn composite_views(c: &Composite<u32>, ks: &[(Option<&str>, &Value<u32>)]) -> Result<(), String> {
    steps(8);
    if c.len() != ks.len() || c.is_empty() != ks.is_empty() {
        return Err(format!("length {} and emptiness {} of {c:?}", c.len(), c.is_empty()));
    }
    let it = c.values();
    if it.len() != ks.len() {
        return Err(format!("the iterator announces {} values", it.len()));
    }
    let got: Vec<&Value<u32>> = it.collect();
    if got.len() != ks.len() || got.iter().zip(ks).any(|(g, k)| !std::ptr::eq(*g, k.1)) {
        return Err(format!("the iterator gives {got:?}"));
    }
    let it = c.clone().into_values();
    if it.len() != ks.len() {
        return Err(format!("the consuming iterator announces {} values", it.len()));
    }
    let got: Vec<Value<u32>> = it.collect();
    if got.len() != ks.len() || got.iter().zip(ks).any(|(g, k)| !eq_v(g, k.1)) {
        return Err(format!("the consuming iterator gives {got:?}"));
    }
    // iteration in steps
    let mut it = c.values();
    for k in 0..ks.len() {
        if it.len() != ks.len() - k || it.next().is_none_or(|g| !std::ptr::eq(g, ks[k].1)) {
            return Err(format!("stepping through the iterator goes wrong at {k}"));
        }
    }
    if it.next().is_some() || it.next().is_some() {
        return Err("the iterator goes on after its end".into());
    }
    // rebuilding it with the constructors
    let named: Option<Vec<(String, Value<u32>)>> = ks.iter().map(|(n, x)| n.map(|n| (n.to_string(), (*x).clone()))).collect();
    let xs: Vec<Value<u32>> = ks.iter().map(|(_, x)| (*x).clone()).collect();
    let is_named = matches!(c, Composite::Named(_));
    let mut again = vec![];
    if is_named {
        let n = named.unwrap();
        again.push(Composite::named(n.clone()));
        again.push(Composite::named(n.iter().map(|(n, x)| (n.as_str(), x.clone()))));
        again.push(Variant::named_fields("V", n).values);
    } else {
        again.push(Composite::unnamed(xs.clone()));
        again.push(Composite::unnamed(xs.iter().cloned()));
        again.push(Variant::unnamed_fields("V", xs).values);
    }
    for a in again {
        if !eq_c(&a, c) {
            return Err(format!("building {c:?} again from its parts gives {a:?}"));
        }
    }
    Ok(())
}

fn accessors(x: &V, rec: &mut Rec) {
    rec.case(
        || format!("accessors {x:?}"),
        || {
            let n = w::number(x);
            let view = views(&n)?;
            let ks = kids(&n.value);
            match &n.value {
                ValueDef::Composite(c) => composite_views(c, &ks)?,
                ValueDef::Variant(v) => composite_views(&v.values, &ks)?,
                _ => {}
            }
            // constructors without context
            let xs: Vec<V> = ks.iter().map(|(_, x)| w::strip(x)).collect();
            match &x.value {
                ValueDef::Composite(c @ Composite::Unnamed(_)) => {
                    ck("unnamed_composite", &Value::unnamed_composite(xs.clone()), x)?;
                    ck("From<Vec>", &Value::from(xs.clone()), x)?;
                    ck("From<Vec> (definition)", &w::v(ValueDef::from(xs.clone())), x)?;
                    ck("From<Vec> (composite)", &w::v(ValueDef::from(Composite::from(xs.clone()))), x)?;
                    ck("From<Composite>", &Value::from(c.clone()), x)?;
                    if xs.len() == 2 {
                        ck("unnamed_composite of an array", &Value::unnamed_composite([xs[0].clone(), xs[1].clone()]), x)?;
                    }
                }
                ValueDef::Composite(c @ Composite::Named(ps)) => {
                    ck("named_composite", &Value::named_composite(ps.clone()), x)?;
                    ck("named_composite of strs", &Value::named_composite(ps.iter().map(|(n, x)| (n.as_str(), x.clone()))), x)?;
                    ck("From<Vec of pairs>", &Value::from(ps.clone()), x)?;
                    ck("From<Vec of pairs> (definition)", &w::v(ValueDef::from(ps.clone())), x)?;
                    ck("From<Vec of pairs> (composite)", &w::v(ValueDef::from(Composite::from(ps.clone()))), x)?;
                    ck("From<Composite>", &Value::from(c.clone()), x)?;
                }
                ValueDef::Variant(v) => {
                    ck("variant", &Value::variant(v.name.clone(), v.values.clone()), x)?;
                    ck("variant of a str", &Value::variant(v.name.as_str(), v.values.clone()), x)?;
                    ck("From<Variant>", &Value::from(v.clone()), x)?;
                    ck("From<Variant> (definition)", &w::v(ValueDef::from(v.clone())), x)?;
                    match &v.values {
                        Composite::Named(ps) => {
                            ck("named_variant", &Value::named_variant(v.name.clone(), ps.clone()), x)?;
                            ck("named_fields", &Value::from(Variant::named_fields(v.name.as_str(), ps.clone())), x)?;
                        }
                        Composite::Unnamed(xs) => {
                            ck("unnamed_variant", &Value::unnamed_variant(v.name.clone(), xs.clone()), x)?;
                            ck("unnamed_fields", &Value::from(Variant::unnamed_fields(v.name.as_str(), xs.clone())), x)?;
                        }
                    }
                }
                ValueDef::BitSequence(b) => {
                    ck("bit_sequence", &Value::bit_sequence(b.clone()), x)?;
                    ck("From<BitSequence>", &Value::from(b.clone()), x)?;
                    ck("From<BitSequence> (definition)", &w::v(ValueDef::from(b.clone())), x)?;
                    let again: BitSequence = b.iter().collect();
                    ck("bits collected again", &Value::bit_sequence(again), x)?;
                }
                ValueDef::Primitive(p) => {
                    ck("primitive", &Value::primitive(p.clone()), x)?;
                    ck("From<Primitive> (definition)", &w::v(ValueDef::from(p.clone())), x)?;
                    match p {
                        Primitive::Bool(b) => ck("bool", &Value::bool(*b), x)?,
                        Primitive::Char(c) => ck("char", &Value::char(*c), x)?,
                        Primitive::String(s) => {
                            ck("string", &Value::string(s.clone()), x)?;
                            ck("string of a str", &Value::string(s.as_str()), x)?;
                        }
                        Primitive::U128(n) => {
                            ck("u128", &Value::u128(*n), x)?;
                            ck("primitive u128", &Value::primitive(Primitive::u128(*n)), x)?;
                        }
                        Primitive::I128(n) => {
                            ck("i128", &Value::i128(*n), x)?;
                            ck("primitive i128", &Value::primitive(Primitive::i128(*n)), x)?;
                        }
                        _ => {}
                    }
                }
            }
            ck("without_context", &Value::without_context(x.value.clone()), x)?;
            let c = Value::with_context(n.value.clone(), 77u32);
            if c.context != 77 || !eq_d(&c.value, &n.value) {
                return Err(format!("with_context gives {c:?}"));
            }
            if !eq_v(&n.clone(), &n) {
                return Err("a clone differs".into());
            }
            Ok(view)
        },
    );
}

/// Compare one value with all of a family, as the crate does and as written out above.
fn equality(name: &'static str, parts: usize, list: fn(Tier) -> Vec<V>) -> Vec<Item> {
    (0..parts)
        .map(|k| {
            item(format!("{name} part {k} of {parts}"), move |rec: &mut Rec| {
                let l = list(rec.tier);
                for x in l.iter().skip(k).step_by(parts) {
                    rec.case(
                        || format!("{name} {x:?} with all"),
                        || {
                            let n = w::number(x);
                            let mut m = n.clone();
                            let total = count(&n);
                            for j in 0..total {
                                bump(&mut m, j);
                                steps(2);
                                if m == n || !(m != n) || m.value == n.value && m.context == n.context {
                                    return Err(format!("{m:?} is taken to equal {n:?}, which has another context"));
                                }
                                m = n.clone();
                            }
                            if m != n || !(m == n) {
                                return Err("a value differs from its clone".into());
                            }
                            let mut found = 0;
                            for y in &l {
                                step();
                                let want = eq_v(x, y);
                                let got = x == y;
                                if got != want || (x != y) == want {
                                    return Err(format!("compared with {y:?}: equal is {got}, should be {want}"));
                                }
                                if want {
                                    found += 1;
                                }
                            }
                            Ok(if found > 1 { "equal to others" } else { "equal only to itself" })
                        },
                    );
                }
            })
        })
        .collect()
}
fn count(x: &Value<u32>) -> usize {
    1 + kids(&x.value).iter().map(|(_, k)| count(k)).sum::<usize>()
}
/// Change the context of the n-th node.
fn bump(x: &mut Value<u32>, n: usize) {
    fn go(x: &mut Value<u32>, n: &mut isize) {
        if *n == 0 {
            x.context += 1000;
        }
        *n -= 1;
        let c = match &mut x.value {
            ValueDef::Composite(c) => c,
            ValueDef::Variant(v) => &mut v.values,
            _ => return,
        };
        match c {
            Composite::Named(xs) => xs.iter_mut().for_each(|(_, x)| go(x, n)),
            Composite::Unnamed(xs) => xs.iter_mut().for_each(|x| go(x, n)),
        }
    }
    let mut n = n as isize;
    go(x, &mut n)
}
fn compared(tier: Tier) -> Vec<V> {
    let mut out = w::few();
    out.extend([w::u(0), w::i(0), w::u(1), w::i(1), w::i(7), w::b(false), w::s(""), w::ch('a'), w::s("a"), w::s("true"), w::s("7"), w::ch('7'), w::bits(""), w::bits("1"), w::bits("01"), w::bits("100")]);
    for k in [0u8, 1, 255] {
        out.push(w::p(Primitive::U256([k; 32])));
        out.push(w::p(Primitive::I256([k; 32])));
    }
    let small = [w::u(1), w::i(1), w::s("a")];
    for names in [["a", "b"], ["b", "a"], ["a", "a"], ["", "a"]] {
        out.extend(w::containers(&small, 2, &names, &["a", "b", ""]));
        out.extend(w::containers(&small[..1], 3, &names, &["V"]));
        let mid: Vec<V> = w::containers(&small[..2], 1, &names, &["a"]);
        out.extend(w::containers(&mid, tier.pick(1, 2), &names, &["a"]));
    }
    out
}

fn from_numbers(rec: &mut Rec) {
    macro_rules! all {
        ($($t:ty: $kind:ident / $wide:ty),*) => {$({
            let mut l: Vec<$t> = vec![0, 1, 2, 127, <$t>::MAX, <$t>::MIN, <$t>::MAX / 2, <$t>::MAX / 2 + 1, <$t>::MAX - 1, <$t>::MIN + 1];
            for b in 0..<$t>::BITS { l.push((1 as $t) << b); l.push(!((1 as $t) << b)); l.push(((1 as $t) << b).wrapping_sub(1)); }
            l.sort(); l.dedup();
            for n in l {
                rec.case(|| format!("{n}{}", stringify!($t)), || {
                    let want = w::p(Primitive::$kind(n as $wide));
                    ck("From (primitive)", &w::p(Primitive::from(n)), &want)?;
                    ck("From (definition)", &w::v(ValueDef::from(n)), &want)?;
                    ck("From", &Value::from(n), &want)?;
                    ck("From<Vec>", &Value::from(vec![n, 0, n]), &w::un(vec![want.clone(), w::p(Primitive::$kind(0)), want.clone()]))?;
                    ck("From<Vec of pairs>", &Value::from(vec![("x", n), ("", n)]), &w::nm(vec![("x", want.clone()), ("", want.clone())]))?;
                    views(&want)
                });
            }
        })*};
    }
    all!(u8: U128/u128, u16: U128/u128, u32: U128/u128, u64: U128/u128, usize: U128/u128, u128: U128/u128,
         i8: I128/i128, i16: I128/i128, i32: I128/i128, i64: I128/i128, isize: I128/i128, i128: I128/i128);
    for b in [true, false] {
        rec.case(|| format!("{b}"), || conv(b, w::b(b)));
    }
    for c in (0..0x180).chain(0x2018..0x2030).chain([0xd7ff, 0xe000, 0xffff, 0x1f980, 0x10ffff]).filter_map(char::from_u32) {
        rec.case(|| format!("{c:?}"), || conv(c, w::ch(c)));
        let s = format!("{c}x{c}");
        rec.case(
            || format!("{s:?}"),
            || {
                conv(s.clone(), w::s(&s))?;
                ck("From<&str> (primitive)", &w::p(Primitive::from(s.as_str())), &w::s(&s))?;
                ck("From<&str> (definition)", &w::v(ValueDef::from(s.as_str())), &w::s(&s))?;
                ck("From<&str>", &Value::from(s.as_str()), &w::s(&s))?;
                Ok("string")
            },
        );
    }
}
fn conv<T: Clone>(x: T, want: V) -> Verdict
where
    Primitive: From<T>,
    ValueDef<()>: From<T>,
    Value<()>: From<T> + From<Vec<T>> + From<Vec<(String, T)>>,
{
    ck("From (primitive)", &w::p(Primitive::from(x.clone())), &want)?;
    ck("From (definition)", &w::v(ValueDef::from(x.clone())), &want)?;
    ck("From", &Value::from(x.clone()), &want)?;
    ck("From<Vec>", &Value::from(vec![x.clone(), x.clone()]), &w::un(vec![want.clone(), want.clone()]))?;
    ck("From<empty Vec>", &Value::from(Vec::<T>::new()), &w::un(vec![]))?;
    ck("From<Vec of pairs>", &Value::from(vec![("a".to_string(), x)]), &w::nm(vec![("a", want.clone())]))?;
    views(&want)
}

fn from_bytes(rec: &mut Rec) {
    let mut l: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 {
        l.push(vec![a]);
        l.push(vec![a, 255 - a]);
        l.push((0..a).collect());
    }
    for n in [31usize, 32, 33, 64, 1000] {
        l.push((0..n).map(|k| (k * 7) as u8).collect());
    }
    for bs in l {
        rec.case(
            || format!("bytes {bs:?}"),
            || {
                let want = w::un(bs.iter().map(|b| w::u(*b as u128)).collect());
                ck("from_bytes", &Value::from_bytes(&bs), &want)?;
                ck("from_bytes of a Vec", &Value::from_bytes(bs.clone()), &want)?;
                ck("From<Vec<u8>>", &Value::from(bs.clone()), &want)?;
                if let Ok(a) = <[u8; 32]>::try_from(bs.clone()) {
                    ck("from_bytes of an array", &Value::from_bytes(a), &want)?;
                }
                Ok("bytes")
            },
        );
    }
}

pub fn a03(_tier: Tier) -> Vec<Item> {
    let mut out = w::spread("accessors", 32, plain_values, accessors);
    out.extend(crate::s::sized(_tier, accessors));
    out.extend(equality("equality", 32, compared));
    out.push(item("conversions", from_numbers));
    out.push(item("bytes", from_bytes));
    out
}
