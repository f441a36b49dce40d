//! The second family of the exploration: sizes. Where the type corpus enumerates *shapes* over few
//! values, this one enumerates *sizes* over few shapes: every length up to a bound and the lengths
//! around every power of two (list, array, string, bit string), every number of fields, every
//! variant index, every nesting depth, every nested pair of constructors, every value of the small
//! number types, every character. The contents of all positions differ, so that a lost, repeated or
//! exchanged part is visible.
use crate::corpus::{apply, Corpus};
use crate::engine::{item, Item, Rec, Tier};
use crate::tys::*;
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use std::sync::OnceLock;

type Make = Box<dyn Fn(&Reg) -> Value<u32> + Send + Sync>;
pub struct Case {
    pub id: Id,
    pub make: Make,
}
pub struct Group {
    pub name: String,
    pub cases: Vec<Case>,
    /// The inputs of this group are the encodings only (no corrupted ones).
    pub plain: bool,
}
pub struct Big {
    pub c: Corpus,
    pub groups: Vec<Group>,
}

pub fn big(tier: Tier) -> &'static Big {
    static Q: OnceLock<Big> = OnceLock::new();
    static T: OnceLock<Big> = OnceLock::new();
    match tier {
        Tier::Quick => Q.get_or_init(|| build(tier)),
        Tier::Thorough => T.get_or_init(|| build(tier)),
    }
}

/// A value of the given type in which (as far as possible) no two positions have the same content.
pub struct Grow {
    /// counts the positions
    pub k: u64,
    /// length of the first list, string or bit string met
    pub first: Option<usize>,
    /// length of the others: counter modulo this
    pub rest: usize,
    /// prefer variants with fields
    pub deep: bool,
    /// this type's values are of that length
    pub large: Option<(Id, usize)>,
}
fn mix(k: u64) -> u128 {
    let a = (k + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let b = (k + 77).wrapping_mul(0xC2B2_AE3D_27D4_EB4F) ^ (a >> 29);
    (a as u128) << 64 | b as u128
}
pub fn chars() -> &'static [char] {
    static C: OnceLock<Vec<char>> = OnceLock::new();
    C.get_or_init(|| "abcdefgh ijklmnopqrstuvwxyz0123456789é日🦀\"\\\n\0\u{300}'".chars().collect())
}
impl Grow {
    fn len(&mut self) -> usize {
        match self.first.take() {
            Some(n) => n,
            None => (self.k as usize) % self.rest,
        }
    }
    pub fn value(&mut self, r: &Reg, id: Id, cm: bool) -> Value<u32> {
        self.k += 1;
        let k = self.k;
        if let Some((t, n)) = self.large {
            if t == id {
                self.first = Some(n + (k % 5) as usize);
                self.rest = 3;
            }
        }
        let v = |value: ValueDef<u32>| Value { value, context: id };
        match r.get(id) {
            T::Prim(p) => {
                if let Some((bits, signed)) = int_bits(*p) {
                    let n = if k % 3 == 0 { k as u128 } else { mix(k) };
                    let n = if cm && k % 2 == 0 { n >> (k % 127) } else { n };
                    let sh = 128 - bits;
                    return pv(if signed { Primitive::I128(((n << sh) as i128) >> sh) } else { Primitive::U128((n << sh) >> sh) }, id);
                }
                match p {
                    P::Bool => pv(Primitive::Bool(mix(k) >> 7 & 1 == 1), id),
                    P::Char => pv(Primitive::Char(chars()[k as usize % chars().len()]), id),
                    P::Str => {
                        let n = self.len();
                        let base = mix(k) as usize;
                        pv(Primitive::String((0..n).map(|j| chars()[(base % 1000 + j + j / 50) % chars().len()]).collect()), id)
                    }
                    P::U256 | P::I256 => {
                        let mut b = [0u8; 32];
                        b[..16].copy_from_slice(&mix(k).to_le_bytes());
                        b[16..].copy_from_slice(&mix(k + 1000).to_le_bytes());
                        pv(if *p == P::U256 { Primitive::U256(b) } else { Primitive::I256(b) }, id)
                    }
                    _ => unreachable!(),
                }
            }
            T::Compact(i) => self.value(r, *i, true),
            T::Struct(fs) => {
                let c = self.fields(r, fs, cm);
                v(ValueDef::Composite(c))
            }
            T::Tuple(is) => {
                let c = Composite::Unnamed(is.iter().map(|i| self.value(r, *i, cm)).collect());
                v(ValueDef::Composite(c))
            }
            T::Enum(vs) => {
                let pick: Vec<&(String, u8, Vec<F>)> = if self.deep { vs.iter().filter(|x| !x.2.is_empty()).collect() } else { vs.iter().collect() };
                let pick = if pick.is_empty() { vs.iter().collect() } else { pick };
                let x = pick[k as usize % pick.len()];
                let c = self.fields(r, &x.2, false);
                v(ValueDef::Variant(Variant { name: x.0.clone(), values: c }))
            }
            T::Seq(i) => {
                let n = self.len();
                let n = if self.deep { n.max(1) } else { n };
                v(ValueDef::Composite(Composite::Unnamed((0..n).map(|_| self.value(r, *i, false)).collect())))
            }
            T::Array(n, i) => v(ValueDef::Composite(Composite::Unnamed((0..*n).map(|_| self.value(r, *i, false)).collect()))),
            T::Bits(..) => {
                let n = self.len();
                let mut b = BitSequence::new();
                for j in 0..n {
                    b.push(mix(k * 131 + j as u64) >> 11 & 1 == 1);
                }
                v(ValueDef::BitSequence(b))
            }
        }
    }
    fn fields(&mut self, r: &Reg, fs: &[F], cm: bool) -> Composite<u32> {
        let vals: Vec<Value<u32>> = fs.iter().map(|f| self.value(r, f.1, cm)).collect();
        if !fs.is_empty() && fs.iter().all(|f| f.0.is_some()) {
            Composite::Named(fs.iter().map(|f| f.0.clone().unwrap()).zip(vals).collect())
        } else {
            Composite::Unnamed(vals)
        }
    }
}

/// Lengths: all up to `dense`, and those around powers of two (all of them in the thorough tier).
pub fn lengths(dense: usize, tops: &[u32]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    for e in tops {
        let p = 1usize << e;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([99, 100, 101, 999, 1000, 1001]);
    v.sort();
    v.dedup();
    v
}

fn grown(id: Id, first: Option<usize>, k0: u64) -> Case {
    Case { id, make: Box::new(move |r| Grow { k: k0, first, rest: 3, deep: false, large: None }.value(r, id, false)) }
}
fn deep(id: Id, k0: u64) -> Case {
    Case { id, make: Box::new(move |r| Grow { k: k0, first: None, rest: 3, deep: true, large: None }.value(r, id, false)) }
}
fn given(id: Id, v: Value<u32>) -> Case {
    Case { id, make: Box::new(move |_| v.clone()) }
}

fn build(tier: Tier) -> Big {
    let mut r = Reg::new();
    let mut groups: Vec<Group> = vec![];
    let mut group = |name: String, cases: Vec<Case>, plain: bool| {
        // Split large groups so that the work spreads over threads.
        let mut cases = cases;
        let mut n = 0;
        while !cases.is_empty() {
            let rest = cases.split_off(cases.len().min(if plain { 20_000 } else { 24 }));
            groups.push(Group { name: format!("{name} ({n})"), cases, plain });
            cases = rest;
            n += 1;
        }
    };
    let [u8_, u16_, u32_, u64_, u128_, bool_, str_, char_, i8_, i64_, u256_] = [P::U8, P::U16, P::U32, P::U64, P::U128, P::Bool, P::Str, P::Char, P::I8, P::I64, P::U256].map(|p| r.p(p));
    let c32 = r.add(T::Compact(u32_));
    let c128 = r.add(T::Compact(u128_));
    let c8 = r.add(T::Compact(u8_));
    let unit = r.tup(&[]);
    let pair = r.tup(&[u8_, u16_]);
    let rec2 = r.st(&[("a", u8_), ("b", str_)]);
    let en = r.en(&[("A", 0, vec![]), ("B", 1, vec![un(u8_)]), ("C", 5, vec![named("p", u16_), named("q", u8_)])]);
    let opt = r.opt(u8_);
    let wrapped = r.wrap(u8_);
    let seq8 = r.seq(u8_);
    let bits8 = r.add(T::Bits(Store::U8, false));
    let arr2 = r.arr(2, u16_);
    let _ = u256_;
    let dense = tier.pick(140, 600);
    let few: &[u32] = tier.pick(&[6, 7, 8, 9, 10], &[6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]);
    let all: &[u32] = tier.pick(&[6, 7, 8, 9, 10, 12, 14, 16], &[6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]);

    // Lists and arrays by length.
    let elems = [u8_, bool_, u16_, u32_, u64_, u128_, str_, char_, i8_, i64_, c32, c128, c8, unit, pair, rec2, en, opt, wrapped, seq8, bits8, arr2];
    for e in elems {
        let s = r.seq(e);
        let name = r.show(s);
        group(format!("lengths of {name}"), lengths(dense, if [u8_, bool_, c32, str_, unit].contains(&e) { all } else { few }).into_iter().map(|n| grown(s, Some(n), n as u64)).collect(), false);
    }
    for e in [u8_, bool_, u16_, str_, unit, rec2, en, c32, opt, wrapped] {
        let mut cs = vec![];
        for n in lengths(tier.pick(70, 300), if [u8_, unit].contains(&e) { all } else { few }) {
            let a = r.arr(n as u32, e);
            cs.push(grown(a, None, n as u64));
        }
        group(format!("lengths of arrays of {}", r.show(e)), cs, false);
    }
    // Strings and bit strings by length, alone and followed by something.
    for inner in [str_].into_iter().chain(STORES.iter().flat_map(|s| [false, true].map(|m| r.add(T::Bits(*s, m)))).collect::<Vec<_>>()) {
        let t = r.tup(&[inner, u8_]);
        let mut cs = vec![];
        for n in lengths(tier.pick(280, 1100), all) {
            cs.push(grown(inner, Some(n), n as u64));
            cs.push(grown(t, Some(n), n as u64 + 5));
        }
        group(format!("lengths of {}", r.show(inner)), cs, false);
    }
    // Numbers of fields.
    let kinds = [u8_, u16_, str_, c32, bool_, opt, i8_, pair];
    let mut cs = vec![];
    for n in (0..=tier.pick(40usize, 70)).chain([63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300]) {
        for turn in 0..tier.pick(2, kinds.len()) {
            let ids: Vec<Id> = (0..n).map(|j| kinds[(j + turn * 3) % kinds.len()]).collect();
            let nf: Vec<F> = ids.iter().enumerate().map(|(j, i)| named(&format!("f{j}"), *i)).collect();
            let uf: Vec<F> = ids.iter().map(|i| un(*i)).collect();
            let mf: Vec<F> = ids.iter().enumerate().map(|(j, i)| if j % 5 == 3 { un(*i) } else { named(&format!("f{j}"), *i) }).collect();
            let last: Vec<F> = ids.iter().enumerate().map(|(j, i)| if j + 1 == n { un(*i) } else { named(&format!("f{j}"), *i) }).collect();
            for fs in [nf, uf, mf, last] {
                let s = r.add(T::Struct(fs.clone()));
                cs.push(grown(s, Some(3), n as u64));
                let e = r.add(T::Enum(vec![("Other".into(), 0, vec![]), ("W".into(), 9, fs)]));
                cs.push(deep(e, n as u64));
            }
            let t = r.tup(&ids);
            cs.push(grown(t, Some(3), n as u64));
        }
    }
    group("numbers of fields".into(), cs, false);
    // Containers of a few large parts.
    let mut cs = vec![];
    for (inner, len) in [(str_, 100), (str_, 20_000), (seq8, 300), (seq8, 20_000), (seq8, 70_000), (bits8, 3000), (bits8, 200_000)] {
        for t in apply(&mut r, inner) {
            let mut id = t;
            for again in 0..2 {
                cs.push(Case {
                    id,
                    make: Box::new(move |r| {
                        // every list, string or bit string of the value (other than the outer ones) is large
                        let mut g = Grow { k: len as u64, first: None, rest: 3, deep: true, large: None };
                        g.large = Some((inner, len));
                        g.value(r, id, false)
                    }),
                });
                if again == 0 && len <= 20_000 {
                    let p = r.st(&[("l", t), ("m", u8_), ("n", t)]);
                    id = p;
                } else {
                    break;
                }
            }
        }
    }
    group("large parts".into(), cs, false);
    // Variant indices and numbers of variants.
    let mut cs = vec![];
    let shape = |j: usize| -> Vec<F> {
        match j % 4 {
            0 => vec![],
            1 => vec![un(u8_)],
            2 => vec![named("x", u16_), named("y", u8_)],
            _ => vec![un(bool_), un(str_)],
        }
    };
    for (step, count) in [(1usize, 256usize), (255, 256), (37, 100), (1, 16), (1, 17), (1, 2), (1, 1)] {
        let vs: Vec<(String, u8, Vec<F>)> = (0..count).map(|j| (format!("V{j}"), (j * step + 3) as u8, shape(j))).collect();
        let e = r.add(T::Enum(vs.clone()));
        for (name, _, fs) in vs {
            let mut g = Grow { k: 7, first: None, rest: 3, deep: false, large: None };
            // built by hand: this variant
            let values = g.fields(&r, &fs, false);
            cs.push(given(e, Value { value: ValueDef::Variant(Variant { name, values }), context: e }));
        }
    }
    group("variants".into(), cs, false);
    // Every nested pair of constructors, alternating, and towers of one constructor.
    let nk = {
        let mut t = Reg::new();
        let x = t.p(P::U8);
        apply(&mut t, x).len()
    };
    let heavy = [7usize, 11, 14]; // arrays of 2 and 3 grow exponentially, arrays of 0 end
    let mut cs = vec![];
    for a in (0..nk).filter(|x| !heavy.contains(x)) {
        for b in (0..nk).filter(|x| !heavy.contains(x)) {
            for leaf in [u8_, str_] {
                let mut id = leaf;
                let upto = if a == b { tier.pick(48, 100) } else { tier.pick(12, 24) };
                for d in 1..=upto {
                    id = apply(&mut r, id)[if d % 2 == 0 { a } else { b }];
                    if leaf == u8_ || d <= 6 {
                        if d <= 12 || d % 8 == 0 || tier == Tier::Thorough {
                            cs.push(deep(id, d as u64));
                        }
                    }
                }
            }
        }
    }
    group("nesting".into(), cs, false);
    // Values of the number types.
    let mut cs = vec![];
    for p in UINTS.iter().chain(&IINTS) {
        let (bits, signed) = int_bits(*p).unwrap();
        let id = r.p(*p);
        let ts = if signed { vec![id] } else { vec![id, r.add(T::Compact(id))] };
        let mut nums: Vec<u128> = vec![];
        if bits <= 16 {
            nums.extend(0..1u128 << bits);
        }
        let m = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
        for e in 0..bits {
            for d in 0..=4u128 {
                nums.push(((1u128 << e).wrapping_add(d)) & m);
                nums.push(((1u128 << e).wrapping_sub(d)) & m);
                nums.push((!(1u128 << e)).wrapping_add(d) & m);
            }
        }
        nums.extend([m, m - 1, 0]);
        let mut dec = 1u128;
        while dec < m / 10 {
            nums.extend([dec, dec - 1, dec + 1]);
            dec *= 10;
        }
        nums.sort();
        nums.dedup();
        for t in ts {
            for &n in &nums {
                let sh = 128 - bits;
                let pr = if signed { Primitive::I128(((n << sh) as i128) >> sh) } else { Primitive::U128(n) };
                // the label of a compact number is that of the number
                cs.push(given(t, pv(pr, id)));
            }
        }
    }
    group("numbers".into(), cs, true);
    let mut cs = vec![];
    let step = tier.pick(1, 1);
    for c in (0..=0x10ffffu32).step_by(step).filter_map(char::from_u32) {
        if tier == Tier::Quick && c as u32 > 0x3100 && c as u32 % 61 != 0 && (c as u32 & 0xfff) > 2 && (c as u32 & 0xfff) < 0xffd && !(0xd7f0..0xe010).contains(&(c as u32)) {
            continue;
        }
        cs.push(given(char_, pv(Primitive::Char(c), char_)));
        cs.push(given(str_, pv(Primitive::String(format!("{c}a{c}")), str_)));
    }
    group("characters".into(), cs, true);
    let types = r.portable();
    Big { c: Corpus { reg: r, types, ids: vec![], odd: vec![] }, groups }
}

/// One item per group of the family; `f` is given every value with its reference encoding.
pub fn values(tier: Tier, f: impl Fn(&'static Corpus, Id, &Value<u32>, &[u8], &mut Rec) + Send + Sync + Copy + 'static) -> Vec<Item> {
    let b = big(tier);
    b.groups
        .iter()
        .map(|g| {
            item(format!("sizes: {}", g.name), move |rec: &mut Rec| {
                for x in &g.cases {
                    if rec.stopped() {
                        break;
                    }
                    let v = (x.make)(&b.c.reg);
                    let e = b.c.reg.encode(x.id, &v).unwrap_or_else(|| panic!("no encoding: {} : {}", showv(&v), b.c.reg.show(x.id)));
                    f(&b.c, x.id, &v, &e, rec);
                }
            })
        })
        .collect()
}

/// One item per group; `f` is given every encoding, and (unless the group is plain) its truncations
/// and corruptions, with what the reference decoder makes of them.
pub fn inputs(tier: Tier, f: impl Fn(&'static Corpus, Id, &[u8], &Dec, &mut Rec) + Send + Sync + Copy + 'static) -> Vec<Item> {
    let b = big(tier);
    b.groups
        .iter()
        .map(|g| {
            item(format!("sizes: {}", g.name), move |rec: &mut Rec| {
                for x in &g.cases {
                    if rec.stopped() {
                        break;
                    }
                    let v = (x.make)(&b.c.reg);
                    let e = b.c.reg.encode(x.id, &v).unwrap_or_else(|| panic!("no encoding: {} : {}", showv(&v), b.c.reg.show(x.id)));
                    let mut go = |i: &[u8]| {
                        let d = b.c.reg.decode(x.id, i);
                        if d != Dec::Skip {
                            f(&b.c, x.id, i, &d, rec);
                        }
                    };
                    go(&e);
                    if g.plain {
                        continue;
                    }
                    let mut t = e.clone();
                    t.extend([0xff, 1]);
                    go(&t);
                    for p in places(e.len()) {
                        go(&e[..p]);
                        let mut t = e.clone();
                        t[p] = 0xff;
                        if t != e {
                            go(&t);
                        }
                    }
                }
            })
        })
        .collect()
}
/// Positions to cut and corrupt at: all of short inputs, those near the ends and powers of two of
/// long ones.
fn places(n: usize) -> Vec<usize> {
    if n <= 90 {
        return (0..n).collect();
    }
    if n > 3000 {
        return vec![1, 5, n / 2, n - 1];
    }
    let mut v: Vec<usize> = (0..6).chain(n - 4..n).collect();
    v.push(n / 2);
    for e in [6u32, 7, 8, 9, 10] {
        v.extend([(1usize << e) + 1, (1 << e) + 2, (1 << e) + 5]);
    }
    v.retain(|p| *p < n);
    v.sort();
    v.dedup();
    v
}
