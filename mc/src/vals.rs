//! Families of dynamic values (without regard to any SCALE type), enumerated by nesting level.
use crate::engine::Tier;
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};

pub type V = Value<()>;

pub fn bits(s: &str) -> V {
    let mut b = BitSequence::new();
    s.chars().for_each(|c| b.push(c == '1'));
    v(ValueDef::BitSequence(b))
}
pub fn v(d: ValueDef<()>) -> V {
    Value { value: d, context: () }
}
pub fn p(x: Primitive) -> V {
    v(ValueDef::Primitive(x))
}
pub fn u(n: u128) -> V {
    p(Primitive::U128(n))
}
pub fn i(n: i128) -> V {
    p(Primitive::I128(n))
}
pub fn b(x: bool) -> V {
    p(Primitive::Bool(x))
}
pub fn ch(c: char) -> V {
    p(Primitive::Char(c))
}
pub fn s(x: &str) -> V {
    p(Primitive::String(x.to_string()))
}
pub fn un(x: Vec<V>) -> V {
    v(ValueDef::Composite(Composite::Unnamed(x)))
}
pub fn nm(x: Vec<(&str, V)>) -> V {
    v(ValueDef::Composite(Composite::Named(x.into_iter().map(|(n, x)| (n.to_string(), x)).collect())))
}
pub fn var(n: &str, c: Composite<()>) -> V {
    v(ValueDef::Variant(Variant { name: n.to_string(), values: c }))
}
pub fn cu(x: Vec<V>) -> Composite<()> {
    Composite::Unnamed(x)
}
pub fn cn(x: Vec<(&str, V)>) -> Composite<()> {
    Composite::Named(x.into_iter().map(|(n, x)| (n.to_string(), x)).collect())
}

/// Names of every flavour: identifiers, keywords, quoted ones, empty, look-alikes of other syntax.
pub const NAMES: [&str; 40] = [
    "a", "A1_b", "true", "false", "trueFoo", "falsey", "true1", "true_", "false_x", "v", "vv", "v_", "_a", "1a", "", "a b", "é", "αβ_1", "a\"b", "v\"", "a\n", "日本", "a-b", "0x1", "null", "True", "²", "a²", "ª", "'", "\\", "{", "a:", "<01>", "\u{300}", "a\u{300}", "-1", "\0", "🦀", " ",
];

/// `NAMES` and the names which some sloppy comparison could take for each other.
pub fn all_names() -> &'static [&'static str] {
    static A: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut v: Vec<&str> = vec![];
        for n in NAMES.iter().chain(&crate::e::LOOK_ALIKES) {
            if !v.contains(n) {
                v.push(n);
            }
        }
        v
    })
}

/// Scalars of every kind, with the interesting contents.
pub fn scalars(tier: Tier) -> Vec<V> {
    let mut out = vec![b(true), b(false)];
    let m = i128::MAX;
    for n in [0u128, 1, 9, 10, 255, 256, u64::MAX as u128, u64::MAX as u128 + 1, m as u128, m as u128 + 1, u128::MAX - 1, u128::MAX] {
        out.push(u(n));
    }
    for n in [0i128, 1, 7, -1, -9, -10, -255, i64::MIN as i128, i64::MAX as i128, i64::MIN as i128 - 1, m, -m, i128::MIN] {
        out.push(i(n));
    }
    let chars = "ab0 \n\t\"'\r\\\0é🦀(){}<>:,v\u{7f}\u{1}\u{300}\u{2028}\u{a0}\u{fffd}\u{10ffff}\u{d7ff}_-+";
    for c in chars.chars() {
        out.push(ch(c));
        out.push(s(&c.to_string()));
    }
    if tier == Tier::Thorough {
        for c in (0..0x300u32).chain(0x2000..0x2070).chain([0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x10fffe]).filter_map(char::from_u32) {
            out.push(ch(c));
            out.push(s(&format!("{c}{c}")));
        }
    } else {
        for c in (0..0xc0u32).filter_map(char::from_u32) {
            out.push(ch(c));
        }
    }
    // all strings of length 2 and 3 over the characters that matter for quoting
    let q: Vec<char> = "\"\\\nn0a'\0".chars().collect();
    for x in &q {
        for y in &q {
            out.push(s(&format!("{x}{y}")));
            for z in &q {
                out.push(s(&format!("{x}{y}{z}")));
            }
        }
    }
    out.push(s(""));
    out.push(s(&"long ".repeat(60)));
    let maxbits = tier.pick(6, 10);
    for len in 0..=maxbits {
        for k in 0..(1u32 << len) {
            out.push(bits(&(0..len).map(|j| if k >> j & 1 == 1 { '1' } else { '0' }).collect::<String>()));
        }
    }
    for len in [7usize, 8, 9, 31, 32, 33, 63, 64, 65, 100] {
        out.push(bits(&(0..len).map(|k| if k % 3 == 1 { '1' } else { '0' }).collect::<String>()));
        out.push(bits(&"1".repeat(len)));
    }
    out
}

/// Every power of two, and up to two less or more, as far as they fit.
pub fn boundary() -> (Vec<u128>, Vec<i128>) {
    let mut us = vec![];
    let mut is = vec![];
    for k in 0..=128u32 {
        let p: u128 = if k == 128 { 0 } else { 1u128 << k };
        for d in [-2i32, -1, 0, 1, 2] {
            let n = if d < 0 { p.wrapping_sub(-d as u128) } else { p.wrapping_add(d as u128) };
            us.push(n);
            is.push(n as i128);
            is.push((n as i128).wrapping_neg());
        }
    }
    us.sort();
    us.dedup();
    is.sort();
    is.dedup();
    (us, is)
}

/// Few scalars, one of each kind.
pub fn few() -> Vec<V> {
    vec![u(7), s("x y"), b(true), ch('\''), i(-3), bits("10")]
}

/// All containers of up to `width` children drawn from `kids`, in each flavour (unnamed, named,
/// variants of both), with names taken in turn from `names`.
pub fn containers(kids: &[V], width: usize, names: &[&str], vnames: &[&str]) -> Vec<V> {
    let mut out = vec![];
    let mut push = |xs: &[V]| {
        let un_ = Composite::Unnamed(xs.to_vec());
        let nm_ = Composite::Named(xs.iter().enumerate().map(|(k, x)| (names[k % names.len()].to_string(), x.clone())).collect());
        out.push(v(ValueDef::Composite(un_.clone())));
        out.push(v(ValueDef::Composite(nm_.clone())));
        for n in vnames {
            out.push(var(n, un_.clone()));
            out.push(var(n, nm_.clone()));
        }
    };
    for w in 0..=width {
        let doms: Vec<Vec<V>> = vec![kids.to_vec(); w];
        for xs in crate::tys::cart(&doms, usize::MAX) {
            push(&xs);
        }
    }
    out
}

/// All trees up to the given nesting depth.
pub fn trees(scalars: &[V], depth: usize, width: usize, names: &[&str], vnames: &[&str]) -> Vec<V> {
    let mut cur: Vec<V> = scalars.to_vec();
    for _ in 0..depth {
        let mut next = scalars.to_vec();
        next.extend(containers(&cur, width, names, vnames));
        cur = next;
    }
    cur
}

/// The given value put into every position of every container flavour, once.
pub fn frames(x: &V, name: &str) -> Vec<V> {
    let x = || x.clone();
    vec![
        un(vec![x()]),
        un(vec![x(), u(1)]),
        un(vec![u(1), x()]),
        un(vec![x(), x(), x()]),
        nm(vec![(name, x())]),
        nm(vec![(name, x()), ("z", s("e"))]),
        nm(vec![("y", b(false)), (name, x())]),
        var(name, cu(vec![x()])),
        var("V", cu(vec![x(), x()])),
        var("V", cn(vec![(name, x())])),
        var(name, cn(vec![("q", u(0)), ("r", x())])),
    ]
}

/// Give every node a distinct number, in pre-order, as context.
pub fn number(x: &V) -> Value<u32> {
    let mut n = 0;
    number_from(x, &mut n)
}
pub fn number_from(x: &V, n: &mut u32) -> Value<u32> {
    let context = *n;
    *n += 1;
    let value = match &x.value {
        ValueDef::Composite(c) => ValueDef::Composite(number_c(c, n)),
        ValueDef::Variant(w) => ValueDef::Variant(Variant { name: w.name.clone(), values: number_c(&w.values, n) }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
    };
    Value { value, context }
}
pub fn number_c(c: &Composite<()>, n: &mut u32) -> Composite<u32> {
    match c {
        Composite::Named(xs) => Composite::Named(xs.iter().map(|(k, x)| (k.clone(), number_from(x, n))).collect()),
        Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(|x| number_from(x, n)).collect()),
    }
}
/// Drop all contexts (independent of the crate's own function, which is under test).
pub fn strip<C>(x: &Value<C>) -> V {
    let value = match &x.value {
        ValueDef::Composite(c) => ValueDef::Composite(strip_c(c)),
        ValueDef::Variant(w) => ValueDef::Variant(Variant { name: w.name.clone(), values: strip_c(&w.values) }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
    };
    v(value)
}
pub fn strip_c<C>(c: &Composite<C>) -> Composite<()> {
    match c {
        Composite::Named(xs) => Composite::Named(xs.iter().map(|(k, x)| (k.clone(), strip(x))).collect()),
        Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(strip).collect()),
    }
}

/// Spread the cases of a list over `n` items: item k handles the entries with index = k mod n.
pub fn spread<X: Sync + Send + 'static>(
    name: &str,
    n: usize,
    list: impl Fn(Tier) -> Vec<X> + Send + Sync + Clone + 'static,
    f: impl Fn(&X, &mut crate::engine::Rec) + Send + Sync + Clone + 'static,
) -> Vec<crate::engine::Item> {
    (0..n)
        .map(|k| {
            let f = f.clone();
            let list = list.clone();
            crate::engine::item(format!("{name} part {k} of {n}"), move |rec: &mut crate::engine::Rec| {
                let l = list(rec.tier);
                for x in l.iter().skip(k).step_by(n) {
                    f(x, rec);
                }
            })
        })
        .collect()
}
