//! The family of type descriptions the SCALE checks range over: every type constructor applied to
//! every leaf, then to the results, and so on up to a depth, plus recursive, duplicated and wide
//! types. The corpus is one registry, so type ids are all different and wrong ids are visible.
use crate::engine::Tier;
use crate::tys::*;
use scale_info::PortableRegistry;
use std::sync::OnceLock;

pub struct Corpus {
    pub reg: Reg,
    pub types: PortableRegistry,
    /// (type, constructor depth)
    pub ids: Vec<(Id, u32)>,
    /// Types that can only be decoded.
    pub odd: Vec<(Id, u32)>,
}

pub fn leaves(r: &mut Reg) -> Vec<Id> {
    let mut v: Vec<Id> = ALL_PRIMS.iter().map(|p| r.p(*p)).collect();
    for p in UINTS {
        let i = r.p(p);
        v.push(r.add(T::Compact(i)));
    }
    v.push(r.tup(&[]));
    v.push(r.ust(&[]));
    for s in STORES {
        for m in [false, true] {
            v.push(r.add(T::Bits(s, m)));
        }
    }
    v
}

/// Every type constructor with `x` in each kind of position.
pub fn apply(r: &mut Reg, x: Id) -> Vec<Id> {
    let u8_ = r.p(P::U8);
    let u16_ = r.p(P::U16);
    let b = r.p(P::Bool);
    vec![
        r.wrap(x),
        r.seq(x),
        r.opt(x),
        r.nwrap("a", x),
        r.st(&[("a", x), ("b", u8_)]),
        r.ust(&[u16_, x]),
        r.en(&[("A", 0, vec![]), ("B", 1, vec![un(x)]), ("C", 5, vec![named("p", x), named("q", u8_)]), ("D", 255, vec![un(b), un(x)])]),
        r.arr(2, x),
        r.tup(&[x]),
        r.tup(&[b, x]),
        r.arr(1, x),
        r.arr(0, x),
        r.st(&[("b", u16_), ("a", x)]),
        r.add(T::Struct(vec![named("a", u8_), un(x)])),
        r.arr(3, x),
    ]
}

fn build(tier: Tier) -> Corpus {
    let mut r = Reg::new();
    let mut ids: Vec<(Id, u32)> = vec![];
    let l0 = leaves(&mut r);
    ids.extend(l0.iter().map(|i| (*i, 0)));
    for x in &l0 {
        ids.extend(apply(&mut r, *x).into_iter().map(|i| (i, 1)));
    }
    let mut core: Vec<Id> = vec![];
    let u8_ = r.p(P::U8);
    let u16_ = r.p(P::U16);
    let u32_ = r.p(P::U32);
    let str_ = r.p(P::Str);
    let bool_ = r.p(P::Bool);
    let i16_ = r.p(P::I16);
    let c32 = r.add(T::Compact(u32_));
    let bits8 = r.add(T::Bits(Store::U8, false));
    let bits16 = r.add(T::Bits(Store::U16, true));
    core.extend([u8_, c32, str_]);
    if tier == Tier::Thorough {
        core.extend([bool_, i16_, bits8, bits16]);
        let x = [r.p(P::Char), r.p(P::U128), r.tup(&[]), r.p(P::I128)];
        core.extend(x);
    }
    let mut l2 = vec![];
    for x in &core {
        for y in apply(&mut r, *x) {
            l2.extend(apply(&mut r, y));
        }
    }
    ids.extend(l2.iter().map(|i| (*i, 2)));
    let deep: Vec<Id> = if tier == Tier::Thorough { vec![u8_, c32, bits8] } else { vec![u8_] };
    for x in deep {
        for y in apply(&mut r, x) {
            for z in apply(&mut r, y) {
                let k = apply(&mut r, z);
                let n = if tier == Tier::Thorough { k.len() } else { 6 };
                ids.extend(k.into_iter().take(n).map(|i| (i, 3)));
            }
        }
    }
    // compacts of wrapped integers
    for p in UINTS {
        let i = r.p(p);
        let w1 = r.wrap(i);
        let w2 = r.nwrap("n", i);
        let w3 = r.tup(&[i]);
        let w4 = r.wrap(w1);
        let w5 = r.nwrap("n", w3);
        for w in [w1, w2, w3, w4, w5] {
            let c = r.add(T::Compact(w));
            ids.push((c, 1));
            let s = r.seq(c);
            ids.push((s, 2));
            let st = r.st(&[("x", c), ("y", u8_)]);
            ids.push((st, 2));
        }
    }
    // compacts that cannot be decoded
    for x in [bool_, str_, i16_, bits8] {
        let c = r.add(T::Compact(x));
        ids.push((c, 1));
    }
    let two = r.tup(&[u8_, u8_]);
    let c = r.add(T::Compact(two));
    ids.push((c, 1));
    // two ids for the same structure, and a type id beyond the registry
    let dup8 = r.fresh(T::Prim(P::U8));
    let dups = r.fresh(T::Struct(vec![named("a", u8_), named("b", dup8)]));
    let t = r.tup(&[u8_, dup8, dups]);
    ids.push((t, 2));
    let s1 = r.seq(dup8);
    let t = r.tup(&[s1, u8_]);
    ids.push((t, 2));
    // recursive types
    let list = r.reserve();
    let cons = vec![un(u8_), un(list)];
    r.set(list, T::Enum(vec![("Nil".into(), 0, vec![]), ("Cons".into(), 1, cons)]));
    ids.push((list, 3));
    let tree = r.reserve();
    let kids = r.seq(tree);
    r.set(tree, T::Struct(vec![named("v", u8_), named("kids", kids)]));
    ids.push((tree, 3));
    let rose = r.reserve();
    let kids = r.seq(rose);
    r.set(rose, T::Struct(vec![un(kids)]));
    ids.push((rose, 3));
    // wide types (more fields than small-vector capacities), many variants, odd names
    let wide: Vec<F> = (0..20).map(|i| named(&format!("f{i}"), if i % 3 == 0 { u16_ } else { u8_ })).collect();
    let w = r.add(T::Struct(wide.clone()));
    ids.push((w, 1));
    let w = r.ust(&(0..20).map(|i| if i % 3 == 0 { u16_ } else { u8_ }).collect::<Vec<_>>());
    ids.push((w, 1));
    let w = r.tup(&(0..18).map(|i| if i % 4 == 0 { c32 } else { u8_ }).collect::<Vec<_>>());
    ids.push((w, 1));
    let w = r.add(T::Enum(vec![("W".into(), 9, wide)]));
    ids.push((w, 1));
    let many: Vec<(String, u8, Vec<F>)> = (0..24u8).rev().map(|i| (format!("V{i}"), i.wrapping_mul(11), if i % 2 == 0 { vec![] } else { vec![un(u8_)] })).collect();
    let w = r.add(T::Enum(many));
    ids.push((w, 1));
    let w = r.add(T::Enum(vec![]));
    ids.push((w, 1));
    let w = r.st(&[("r#type", u8_), ("a b", u8_), ("", bool_), ("é", str_)]);
    ids.push((w, 1));
    let w = r.st(&[("x", str_), ("y", c32), ("z", bits16), ("w", bool_), ("v", i16_)]);
    ids.push((w, 1));
    let c128 = r.p(P::U128);
    let c128 = r.add(T::Compact(c128));
    let w = r.tup(&[str_, c128, bits8, i16_, u32_]);
    ids.push((w, 1));
    // names that mean something somewhere, or that have to be quoted
    let bytes = r.seq(u8_);
    let one = r.st(&[("a", u8_)]);
    let unit = r.tup(&[]);
    let mut telling = vec![
        r.st(&[("name", str_), ("values", bytes)]),
        r.st(&[("name", str_), ("values", one)]),
        r.st(&[("values", unit), ("name", str_)]),
        r.st(&[("name", str_), ("value", u8_)]),
        r.st(&[("name", str_), ("values", bytes), ("more", bool_)]),
        r.st(&[("name", bytes), ("values", str_)]),
        r.st(&[("type", str_), ("value", u8_)]),
        r.st(&[("Some", u8_)]),
        r.st(&[("None", unit)]),
        r.st(&[("true", bool_), ("false", bool_)]),
        r.st(&[("0", u8_), ("1", str_), ("-", bool_)]),
        r.st(&[("v", u8_), ("_a", u8_), ("a.b", u8_), ("a-b", u8_), ("\"", u8_), ("\n", u8_), ("\\", u8_), ("日本", u8_), (" a", u8_), ("a ", u8_)]),
        r.en(&[("None", 3, vec![]), ("Some", 4, vec![un(u8_)]), ("Other", 5, vec![])]),
        r.en(&[("Some", 0, vec![named("a", u8_)]), ("None", 1, vec![un(u8_)])]),
        r.en(&[("Some", 0, vec![un(u8_), un(str_)]), ("None", 1, vec![named("x", bool_)])]),
        r.en(&[("Some", 1, vec![]), ("None", 0, vec![un(unit)])]),
        r.en(&[("Ok", 0, vec![un(u8_)]), ("Err", 1, vec![un(str_)])]),
        r.en(&[("true", 0, vec![]), ("false", 1, vec![un(u8_)]), ("v", 2, vec![un(u8_)]), ("", 3, vec![]), ("a b", 4, vec![un(u8_)]), ("é", 5, vec![]), ("\"q\"", 6, vec![un(u8_)]), ("a\nb", 7, vec![]), ("1", 8, vec![named("", u8_)]), ("_", 9, vec![]), ("a_1", 10, vec![]), ("values", 11, vec![named("name", str_), named("values", bytes)])]),
        r.en(&[("name", 0, vec![un(str_)]), ("values", 1, vec![un(bytes)])]),
    ];
    for t in telling.clone() {
        telling.push(r.seq(t));
        telling.push(r.opt(t));
        telling.push(r.st(&[("name", t), ("values", t)]));
        telling.push(r.tup(&[t, u8_]));
    }
    // names of every spelling, as fields and as cases, a few at a time and all at once
    let all = crate::vals::all_names();
    let chunks: Vec<&[&str]> = all.chunks(6).filter(|c| c.len() > 1).chain([all]).collect();
    for ns in chunks {
        let fs: Vec<F> = ns.iter().enumerate().map(|(k, n)| named(n, [u8_, u16_, u32_][k % 3])).collect();
        telling.push(r.add(T::Struct(fs)));
        let code = |k: usize| (k * 5 % 256) as u8;
        let cases = |k: usize, fs: Vec<F>| (ns[k].to_string(), code(k), fs);
        telling.push(r.add(T::Enum((0..ns.len()).map(|k| cases(k, vec![])).collect())));
        telling.push(r.add(T::Enum((0..ns.len()).map(|k| cases(k, vec![un(u8_)])).collect())));
        telling.push(r.add(T::Enum((0..ns.len()).map(|k| cases(k, vec![named(ns[k], u8_)])).collect())));
        telling.push(r.add(T::Enum((0..ns.len()).map(|k| cases(k, vec![named(ns[(k + 1) % ns.len()], u8_), named(ns[k], u16_)])).collect())));
    }
    ids.extend(telling.into_iter().map(|t| (t, 2)));
    // fields of one name: such a type can be decoded, while encoding goes by name
    let mut odd = vec![
        r.st(&[("a", u8_), ("a", u8_)]),
        r.st(&[("a", u8_), ("a", u16_), ("a", u8_)]),
        r.st(&[("a", u8_), ("b", u8_), ("a", u8_)]),
        r.st(&[("b", u8_), ("a", u8_), ("a", u8_), ("c", u16_)]),
        r.st(&[("", u8_), ("", u8_)]),
        r.st(&[("a", bytes), ("a", bytes)]),
        r.en(&[("A", 0, vec![named("a", u8_), named("a", u8_)]), ("B", 1, vec![named("x", str_), named("y", bool_), named("x", u8_)])]),
    ];
    for t in odd.clone() {
        odd.push(r.seq(t));
        odd.push(r.opt(t));
        odd.push(r.st(&[("a", t), ("a", t)]));
        odd.push(r.tup(&[t, u8_]));
    }
    let odd = odd.into_iter().map(|t| (t, 2)).collect();
    let mut seen = std::collections::HashSet::new();
    ids.retain(|x| seen.insert(x.0));
    let types = r.portable();
    Corpus { reg: r, types, ids, odd }
}

pub fn corpus(tier: Tier) -> &'static Corpus {
    static Q: OnceLock<Corpus> = OnceLock::new();
    static T: OnceLock<Corpus> = OnceLock::new();
    match tier {
        Tier::Quick => Q.get_or_init(|| build(tier)),
        Tier::Thorough => T.get_or_init(|| build(tier)),
    }
}
