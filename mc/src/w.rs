//! D06 and S11: how much work things take, counted (not timed).
use crate::alloc::measure;
use crate::big;
use crate::corpus::{corpus, Corpus};
use crate::d::nodes;
use crate::e::Counting;
use crate::engine::*;
use crate::inputs::for_inputs;
use crate::tys::*;
use scale_value::{scale, Value, ValueDef};

// ------------------------------------------------------------------ D06
/// Type lookups and allocations of a decoding.
struct Work {
    lookups: u64,
    allocs: u64,
    bytes: u64,
}
fn decoding(c: &Corpus, id: Id, b: &[u8], traced: bool, limit: u64) -> Result<Work, String> {
    step();
    let r = Counting { inner: &c.types, count: Default::default(), limit };
    let (res, used) = measure(|| {
        no_panic(|| {
            if traced {
                scale::tracing::decode_as_type(&mut &*b, id, &r).is_ok()
            } else {
                scale::decode_as_type(&mut &*b, id, &r).is_ok()
            }
        })
    });
    res.map_err(|e| format!("{}decoding {} bytes: {e}", if traced { "tracing " } else { "" }, b.len()))?;
    Ok(Work { lookups: r.count.get(), allocs: used.count, bytes: used.bytes })
}
/// Nodes decoded, whether or not it ended well.
fn met(c: &Corpus, id: Id, b: &[u8]) -> u64 {
    let n = c.reg.nodes_met(id, b);
    match c.reg.decode(id, b) {
        Dec::Done(v, _) => n.max(nodes(&v)),
        _ => n,
    }
}
fn levels<X>(v: &Value<X>) -> u64 {
    let c = match &v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => &x.values,
        _ => return 0,
    };
    1 + c.values().map(levels).max().unwrap_or(0)
}
fn d06_case(c: &Corpus, id: Id, b: &[u8], d: &Dec) -> Verdict {
    let n = met(c, id, b) + b.len() as u64;
    let limit = 6 * n + 60;
    let w = decoding(c, id, b, false, limit)?;
    if w.allocs > 6 * n + 60 {
        return Err(format!("decoding {} bytes, {n} nodes, takes {} allocations", b.len(), w.allocs));
    }
    if w.bytes > 700 * n + (1 << 17) {
        return Err(format!("decoding {} bytes, {n} nodes, asks for {} bytes of memory", b.len(), w.bytes));
    }
    let w = decoding(c, id, b, true, limit)?;
    // (The place in the value is kept track of: an item of it for each level.)
    if matches!(d, Dec::Done(v, _) if w.allocs > (8 + 2 * levels(v)) * n + 60) {
        return Err(format!("tracing decoding of {} bytes, {n} nodes, takes {} allocations", b.len(), w.allocs));
    }
    Ok(match d {
        Dec::Done(..) => "decoded",
        _ => "refused",
    })
}
pub fn d06(tier: Tier) -> Vec<Item> {
    let c = corpus(tier);
    let mut items = big::inputs(tier, |c, id, b, d, rec| rec.case(|| format!("type #{id} {} bytes {}", c.reg.show(id), hex(b)), || d06_case(c, id, b, d)));
    items.extend(c.ids.iter().map(|&(id, depth)| {
        item(c.reg.show(id), move |rec: &mut Rec| {
            for_inputs(c, id, depth, rec.tier, &mut |b, d| rec.case(|| format!("type #{id} {} bytes {}", c.reg.show(id), hex(b)), || d06_case(c, id, b, d)));
        })
    }));
    items.push(item("towers", |rec: &mut Rec| {
        for kind in 0..=KINDS {
            for wrong in 0..4 {
                rec.case(|| format!("towers of kind {kind}, ending {wrong}"), || tower(kind, wrong));
            }
        }
    }));
    items
}
/// A type nested `depth` times, with an input that fits, is cut off, or goes wrong at the innermost.
fn tower_of(kind: usize, wrong: usize, depth: usize) -> (Corpus, Id, Vec<u8>) {
    let mut r = Reg::new();
    let u8_ = r.p(P::U8);
    let mut t = r.p(P::Bool);
    let mut b: Vec<u8> = match wrong {
        0 => vec![1],
        1 => vec![],
        2 => vec![9],
        _ => vec![0],
    };
    let fits = wrong == 0 || wrong == 3;
    for k in 0..depth {
        let sel = if kind == KINDS { k % KINDS } else { kind };
        t = match sel {
            0 => r.wrap(t),
            1 => r.nwrap("a", t),
            2 => r.seq(t),
            3 => r.opt(t),
            4 => r.st(&[("a", t), ("b", u8_)]),
            5 => r.arr(1, t),
            6 => r.tup(&[u8_, t]),
            7 => r.en(&[("A", 0, vec![]), ("B", 1, vec![un(t), un(u8_)])]),
            8 => r.en(&[("A", 1, vec![named("x", u8_), named("y", t)])]),
            _ => r.add(T::Struct(vec![named("a", u8_), un(t)])),
        };
        match sel {
            2 => b.insert(0, 4),
            3 => b.insert(0, 1),
            4 if fits => b.push(7),
            6 | 9 => b.insert(0, 7),
            7 => {
                b.insert(0, 1);
                if fits {
                    b.push(7);
                }
            }
            8 => {
                b.insert(0, 7);
                b.insert(0, 1);
            }
            _ => {}
        }
    }
    let types = r.portable();
    (Corpus { reg: r, types, ids: vec![], odd: vec![] }, t, b)
}
const KINDS: usize = 10;
/// Types nested ever deeper.
fn tower(kind: usize, wrong: usize) -> Verdict {
    let mut prev: Option<(u64, u64, u64)> = None;
    for depth in [8usize, 16, 32, 64] {
        let (c, t, b) = tower_of(kind, wrong, depth);
        if matches!(c.reg.decode(t, &b), Dec::Done(..)) != (wrong == 0 || wrong == 3) {
            return Err("the harness made a wrong input".into());
        }
        let a = decoding(&c, t, &b, false, 100_000)?;
        let z = decoding(&c, t, &b, true, 100_000)?;
        let now = (a.lookups + z.lookups, a.allocs, z.allocs);
        // A tracing failure keeps, at each level, what that level had decoded; keeping track of the
        // place costs the same as when all is well.
        let (c, t, fine) = tower_of(kind, 0, depth);
        let ok = decoding(&c, t, &fine, true, 100_000)?;
        if z.allocs > ok.allocs + 12 * depth as u64 + 60 || z.bytes > ok.bytes + 1000 * depth as u64 + 8192 {
            return Err(format!("a tracing failure at depth {depth} takes {} allocations and {} bytes, success {} and {}", z.allocs, z.bytes, ok.allocs, ok.bytes));
        }
        if let Some(p) = prev {
            // Twice the depth: twice the work, but for what a tracing failure copies at each level.
            if now.0 > 3 * p.0 + 50 || now.1 > 3 * p.1 + 50 || now.2 > 5 * p.2 + 200 {
                return Err(format!("lookups, allocations, and those of tracing: {p:?} at depth {}, {now:?} at depth {depth}", depth / 2));
            }
        }
        prev = Some(now);
    }
    Ok("tower")
}

// ------------------------------------------------------------------ S11
use crate::vals as w;
use crate::vals::V;
use scale_value::stringify::{from_str, from_str_custom, to_writer_custom, ParseErrorKind};


/// Parsing, with a parser that never takes anything counting the places where a value is looked for.
fn parsing(t: &str, calls_limit: u64) -> Result<(u64, u64, u64), String> {
    steps(2);
    let calls = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let k = calls.clone();
    let p = from_str_custom().add_custom_parser(move |_s| {
        k.set(k.get() + 1);
        // (Ends the parse when there were too many.)
        (k.get() > calls_limit).then(|| Err(ParseErrorKind::custom("enough").at(0)))
    });
    let _ = p.parse(t);
    if calls.get() > calls_limit {
        return Err(format!("a value is looked for more than {calls_limit} times in {} bytes", t.len()));
    }
    let (_, used) = measure(|| from_str(t));
    Ok((calls.get(), used.count, used.bytes))
}
fn parse_case(t: &str) -> Verdict {
    let n = t.len() as u64;
    let (_, allocs, bytes) = parsing(t, n + 1)?;
    if allocs > 4 * n + 16 {
        return Err(format!("parsing {n} bytes takes {allocs} allocations"));
    }
    if bytes > 600 * n + 4096 {
        return Err(format!("parsing {n} bytes asks for {bytes} bytes of memory"));
    }
    Ok("parsed")
}
struct Pieces {
    calls: u64,
    bytes: u64,
}
impl std::fmt::Write for Pieces {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.calls += 1;
        self.bytes += s.len() as u64;
        Ok(())
    }
}
fn printing(v: &V) -> Result<Vec<(u64, u64, u64)>, String> {
    let mut out = vec![];
    for style in 0..3 {
        step();
        let mut o = Pieces { calls: 0, bytes: 0 };
        let (r, used) = measure(|| match style {
            0 => to_writer_custom().write(v, &mut o),
            1 => to_writer_custom().compact().write(v, &mut o),
            _ => to_writer_custom().pretty().write(v, &mut o),
        });
        r.map_err(|_| "printing fails")?;
        if used.bytes > 300 * o.bytes + 4096 {
            return Err(format!("style {style}: writing {} bytes asks for {} bytes of memory", o.bytes, used.bytes));
        }
        out.push((o.calls, used.count, o.bytes));
    }
    Ok(out)
}
fn print_case(v: &V) -> Verdict {
    let n = nodes(v);
    for (style, (calls, allocs, bytes)) in printing(v)?.into_iter().enumerate() {
        if calls > 2 * bytes + 20 {
            return Err(format!("style {style}: {bytes} bytes are written in {calls} pieces"));
        }
        if allocs > 4 * n + 16 {
            return Err(format!("style {style}: printing {n} nodes takes {allocs} allocations"));
        }
    }
    Ok("printed")
}
pub fn s11(tier: Tier) -> Vec<Item> {
    let mut items = crate::s::for_texts(tier, |t, rec| rec.case(|| format!("{t:?}"), || parse_case(t)));
    let one = |v: &V, rec: &mut Rec| {
        rec.case(|| format!("printing {}", showv(v)), || print_case(v));
        let t = v.to_string();
        rec.case(|| format!("{t:?}"), || parse_case(&t));
    };
    items.extend(w::spread("values", 24, crate::s::printable, one));
    items.extend(crate::s::sized(tier, one));
    items.push(item("towers", |rec: &mut Rec| {
        // every way of opening, mixed by twos, closed in full, left open, or gone wrong inside
        let open = [("(", ")"), ("{a:", "}"), ("A(", ")"), ("A{b:", "}"), ("(1,", ",2)"), ("{\"x\" : 1, c : ", "}"), ("v\"q\" {d : ", ", e : ()}"), ("( \n", "\n)"), ("true_", ""), ("é(", ")")];
        for a in open {
            for b in open {
                for inner in ["1", "", "\"x\"", "'", "<01>", "?", "-", "true", "A", "1 2", "a:"] {
                    for close in 0..3 {
                        rec.case(|| format!("towers of {a:?} and {b:?} around {inner:?}, closing {close}"), || text_tower(a, b, inner, close));
                    }
                }
            }
        }
    }));
    items.push(item("towers of values", |rec: &mut Rec| {
        for a in 0..6 {
            for b in 0..6 {
                rec.case(|| format!("towers of kinds {a} and {b}"), || value_tower(a, b));
            }
        }
    }));
    items
}
/// Twice the depth may take twice the work.
fn linear(prev: u64, now: u64) -> bool {
    now <= 2 * prev + prev / 2 + 60
}
fn text_tower(a: (&str, &str), b: (&str, &str), inner: &str, close: usize) -> Verdict {
    let mut prev: Option<(u64, u64, u64)> = None;
    for d in [8usize, 16, 32, 64] {
        let mut t = String::new();
        for k in 0..d {
            t += if k % 2 == 0 { a.0 } else { b.0 };
        }
        t += inner;
        for k in (0..d).rev() {
            match close {
                0 => t += if k % 2 == 0 { a.1 } else { b.1 },
                1 if k > 0 => t += if k % 2 == 0 { a.1 } else { b.1 },
                _ => {}
            }
        }
        let now = parsing(&t, t.len() as u64 + 1)?;
        if let Some(p) = prev {
            if !linear(p.0, now.0) || !linear(p.1, now.1) || !linear(p.2, now.2.saturating_sub(4096)) {
                return Err(format!("places, allocations and bytes: {p:?} at depth {}, {now:?} at depth {d}", d / 2));
            }
        }
        prev = Some(now);
    }
    Ok("tower parsed")
}
fn value_tower(a: usize, b: usize) -> Verdict {
    let mut prev: Option<Vec<(u64, u64, u64)>> = None;
    for d in [8usize, 16, 32, 64] {
        let mut v = w::u(1);
        for k in 0..d {
            v = match if k % 2 == 0 { a } else { b } {
                0 => w::un(vec![v]),
                1 => w::nm(vec![("a", v)]),
                2 => w::var("A", w::cu(vec![v])),
                3 => w::var("A b", w::cn(vec![("c d", v)])),
                4 => w::un(vec![w::u(1), v, w::bits("01")]),
                _ => w::nm(vec![("x", w::s("\n")), ("y", v)]),
            };
        }
        let now = printing(&v)?;
        if let Some(p) = prev {
            for (style, (p, n)) in p.iter().zip(&now).enumerate() {
                // (Indentation grows with the depth.)
                let calls = if style == 2 { n.0 <= 4 * p.0 + 60 } else { linear(p.0, n.0) };
                if !calls || !linear(p.1, n.1) {
                    return Err(format!("style {style}: writes, allocations and bytes: {p:?} at depth {}, {n:?} at depth {d}", d / 2));
                }
            }
        }
        prev = Some(now);
    }
    Ok("tower printed")
}

// ------------------------------------------------------------------ J09
use crate::dyn_serde as ds;
use serde::de::{Deserialize, DeserializeSeed};

/// Allocations of: making the value, reading it back, reading it as a value.
fn converting(t: &ds::DT, d: &ds::DD) -> Result<(V, [u64; 3], [u64; 3]), String> {
    steps(3);
    let (v, a) = measure(|| scale_value::serde::to_value(ds::With(t, d)));
    let v = v.map_err(|e| format!("does not convert to a value: {e}"))?;
    let (x, y) = (v.clone(), v.clone());
    let (r, b) = measure(|| t.deserialize(x));
    r.map_err(|e| format!("does not convert back: {e}"))?;
    // (May fail if the reserved name of bits is in it: see J02.)
    let (_, c) = measure(|| V::deserialize(y));
    Ok((v, [a.count, b.count, c.count], [a.bytes, b.bytes, c.bytes]))
}
fn units(d: &ds::DD) -> u64 {
    use ds::DD::*;
    1 + match d {
        Some(x) | Wrap(x) | Var(_, x) => units(x),
        List(xs) => xs.iter().map(units).sum(),
        Map(xs) => xs.iter().map(|x| units(&x.1)).sum(),
        Bytes(b) => b.len() as u64,
        _ => 0,
    }
}
fn convert_case(t: &ds::DT, d: &ds::DD) -> Verdict {
    let (v, a, bytes) = converting(t, d)?;
    let n = units(d).max(nodes(&v));
    let text = v.to_string().len() as u64;
    for (what, k, a, bytes) in [("making the value", 4, a[0], bytes[0]), ("reading it back", 6, a[1], bytes[1]), ("reading it as a value", 6, a[2], bytes[2])] {
        if a > k * n + 24 {
            return Err(format!("{what}, of {n} nodes, takes {a} allocations"));
        }
        if bytes > 1000 * n + 20 * text + 8192 {
            return Err(format!("{what}, of {n} nodes and {text} characters, asks for {bytes} bytes of memory"));
        }
    }
    Ok("converted")
}
fn sink_case(v: &V) -> Verdict {
    steps(2);
    let n = nodes(v) + if let ValueDef::BitSequence(b) = &v.value { b.len() as u64 } else { 0 };
    let bits = v.to_string().len() as u64;
    let (r, a) = measure(|| scale_value::serde::to_value(v));
    r.map_err(|e| format!("does not serialize: {e}"))?;
    let x = v.clone();
    let (r, b) = measure(|| V::deserialize(x));
    r.map_err(|e| format!("cannot be read as a value: {e}"))?;
    for (what, a) in [("serializing", a), ("reading", b)] {
        if a.count > 6 * n + bits + 24 {
            return Err(format!("{what} {n} nodes takes {} allocations", a.count));
        }
        if a.bytes > 1000 * (n + bits) + 8192 {
            return Err(format!("{what} {n} nodes asks for {} bytes of memory", a.bytes));
        }
    }
    Ok("serialized")
}
fn data_tower(a: usize, b: usize) -> Verdict {
    let mut prev: Option<[u64; 3]> = None;
    for depth in [6usize, 12, 24, 48] {
        let mut t = ds::DT::Int(P::U8);
        let mut d = ds::DD::U(5);
        for k in 0..depth {
            let mut all = ds::apply(&t);
            let (nt, nd) = {
                use ds::DD as D;
                let bx = || Box::new(d.clone());
                match if k % 2 == 0 { a } else { b } {
                    0 => (all.remove(0), D::Wrap(bx())),
                    1 => (all.remove(1), D::Some(bx())),
                    2 => (all.remove(2), D::List(vec![d.clone()])),
                    3 => (all.remove(3), D::List(vec![d.clone()])),
                    4 => (all.remove(4), D::Var(1, bx())),
                    5 => (all.remove(4), D::Var(2, Box::new(D::List(vec![d.clone(), D::U(1)])))),
                    6 => (all.remove(4), D::Var(3, Box::new(D::List(vec![D::Bool(true), d.clone()])))),
                    7 => (all.remove(5), D::List(vec![d.clone()])),
                    8 => (all.remove(6), D::List(vec![D::U(1), d.clone()])),
                    9 => (all.remove(7), D::Map(vec![("k".into(), d.clone())])),
                    10 => (all.remove(8), D::List(vec![D::Bool(true), d.clone()])),
                    11 => (all.remove(9), D::List(vec![d.clone(), D::I(1)])),
                    _ => (all.remove(10), D::Var(1, bx())),
                }
            };
            // (Types of enums hold their content several times: only what is used is kept.)
            t = trim(nt, &nd);
            d = nd;
        }
        let (_, now, _) = converting(&t, &d)?;
        if let Some(p) = prev {
            for k in 0..3 {
                if !linear(p[k], now[k]) {
                    return Err(format!("allocations of making, reading back, reading as a value: {p:?} at depth {}, {now:?} at depth {depth}", depth / 2));
                }
            }
        }
        prev = Some(now);
    }
    Ok("tower converted")
}
fn trim(t: ds::DT, d: &ds::DD) -> ds::DT {
    let small = || Box::new(ds::DT::Bool);
    match (t, d) {
        (ds::DT::Enum(names, mut vs), ds::DD::Var(k, _)) => {
            for (j, x) in vs.iter_mut().enumerate() {
                if j != *k {
                    *x = match x {
                        ds::VT::Unit => ds::VT::Unit,
                        ds::VT::Newtype(_) => ds::VT::Newtype(small()),
                        ds::VT::Tuple(_) => ds::VT::Tuple(vec![ds::DT::Bool, ds::DT::Bool]),
                        ds::VT::Struct(n, f) => ds::VT::Struct(n, vec![ds::DT::Bool; f.len()]),
                    };
                }
            }
            ds::DT::Enum(names, vs)
        }
        (t, _) => t,
    }
}
pub fn j09(tier: Tier) -> Vec<Item> {
    let mut items = w::spread("data", 64, crate::j::types, |t, rec| {
        for d in ds::domain(t, true, rec.tier.pick(24, 40)) {
            rec.case(|| format!("{} = {}", ds::show(t), showv(&ds::value_of(t, &d))), || convert_case(t, &d));
        }
    });
    items.extend(w::spread("values", 16, crate::s::printable, |v, rec| rec.case(|| showv(v), || sink_case(v))));
    items.extend(crate::s::sized(tier, |v, rec| rec.case(|| showv(v), || sink_case(v))));
    items.extend(crate::j2::source_effort());
    items.push(item("towers", |rec: &mut Rec| {
        for a in 0..13 {
            for b in 0..13 {
                rec.case(|| format!("towers of kinds {a} and {b}"), || data_tower(a, b));
            }
        }
    }));
    items
}
