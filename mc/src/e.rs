//! Encoding properties E01-E08.
use crate::big;
use crate::corpus::{corpus, Corpus};
use crate::engine::*;
use crate::inputs::for_inputs;
use crate::tys::*;
use crate::vals as w;
use crate::vals::V;
use codec::{Compact, Encode};
use scale_encode::EncodeAsFields;
use scale_type_resolver::{Field, ResolvedTypeVisitor, TypeResolver};
use scale_value::{scale, Composite, Primitive, Value, ValueDef};
use std::collections::{BTreeSet, HashMap};

fn per_type(tier: Tier, f: impl Fn(&'static Corpus, Id, u32, &mut Rec) + Send + Sync + Copy + 'static) -> Vec<Item> {
    let c = corpus(tier);
    c.ids.iter().map(|&(id, d)| item(c.reg.show(id), move |rec: &mut Rec| f(c, id, d, rec))).collect()
}

pub fn real_encode<X>(c: &Corpus, id: Id, v: &Value<X>) -> Result<Vec<u8>, String> {
    step();
    let mut out = vec![];
    scale::encode_as_type(v, id, &c.types, &mut out).map_err(|e| e.to_string())?;
    Ok(out)
}

// ------------------------------------------------------------------ the relation "v may be encoded as b"

/// All readings of a value as a type, as a set of encodings: the type's own reading of the value at
/// each level, or the value with one single-item layer taken off, or the type with one single-field
/// layer taken off.
pub struct Readings<'a, X> {
    reg: &'a Reg,
    memo: HashMap<(*const Value<X>, Id), BTreeSet<Vec<u8>>>,
    work: u64,
    /// Too many readings to enumerate; the result is not usable.
    pub overflow: bool,
}
const MAX_SET: usize = 48;

impl<'a, X> Readings<'a, X> {
    pub fn of(reg: &'a Reg, v: &Value<X>, id: Id) -> Option<BTreeSet<Vec<u8>>> {
        let mut r = Readings { reg, memo: HashMap::new(), work: 0, overflow: false };
        let s = r.all(v, id);
        if r.overflow {
            None
        } else {
            Some(s)
        }
    }
    pub fn fields(reg: &'a Reg, c: &Composite<X>, fs: &[F]) -> Option<BTreeSet<Vec<u8>>> {
        let mut r = Readings { reg, memo: HashMap::new(), work: 0, overflow: false };
        let s = r.match_fields(c, fs);
        if r.overflow {
            None
        } else {
            Some(s)
        }
    }
    fn all(&mut self, v: &Value<X>, id: Id) -> BTreeSet<Vec<u8>> {
        let key = (v as *const _, id);
        if let Some(s) = self.memo.get(&key) {
            return s.clone();
        }
        self.work += 1;
        if self.work > 20_000 {
            self.overflow = true;
            return BTreeSet::new();
        }
        let mut out = self.core(v, id);
        if let ValueDef::Composite(c) = &v.value {
            if c.len() == 1 {
                let child = c.values().next().unwrap();
                out.extend(self.all(child, id));
            }
        }
        match self.reg.defs.get(id as usize) {
            Some(T::Struct(f)) if f.len() == 1 => out.extend(self.all(v, f[0].1)),
            Some(T::Tuple(f)) if f.len() == 1 => out.extend(self.all(v, f[0])),
            Some(T::Array(1, i)) => out.extend(self.all(v, *i)),
            _ => {}
        }
        if out.len() > MAX_SET {
            self.overflow = true;
        }
        self.memo.insert(key, out.clone());
        out
    }
    fn product(&mut self, parts: &mut dyn Iterator<Item = (&Value<X>, Id)>, prefix: Vec<u8>) -> BTreeSet<Vec<u8>> {
        let mut cur = BTreeSet::from([prefix]);
        for (v, id) in parts {
            let s = self.all(v, id);
            if s.len() == 1 && cur.len() == 1 {
                let mut b = cur.pop_first().unwrap();
                b.extend(s.first().unwrap());
                cur.insert(b);
                continue;
            }
            let mut next = BTreeSet::new();
            for a in &cur {
                for b in &s {
                    let mut x = a.clone();
                    x.extend(b);
                    next.insert(x);
                }
            }
            cur = next;
            if cur.len() > MAX_SET {
                self.overflow = true;
            }
            if cur.is_empty() || self.overflow {
                return BTreeSet::new();
            }
        }
        cur
    }
    fn match_fields(&mut self, c: &Composite<X>, fs: &[F]) -> BTreeSet<Vec<u8>> {
        self.fields_after(c, fs, vec![])
    }
    fn fields_after(&mut self, c: &Composite<X>, fs: &[F], prefix: Vec<u8>) -> BTreeSet<Vec<u8>> {
        match assign(c, fs) {
            None => BTreeSet::new(),
            Some(vs) => self.product(&mut vs.into_iter().zip(fs.iter().map(|f| f.1)), prefix),
        }
    }
    fn core(&mut self, v: &Value<X>, id: Id) -> BTreeSet<Vec<u8>> {
        let Some(t) = self.reg.defs.get(id as usize) else { return BTreeSet::new() };
        let reg = self.reg;
        match (t, &v.value) {
            (T::Struct(fs), ValueDef::Composite(c)) => self.match_fields(c, fs),
            (T::Tuple(is), ValueDef::Composite(c)) => {
                let fs: Vec<F> = is.iter().map(|i| un(*i)).collect();
                self.match_fields(c, &fs)
            }
            (T::Enum(vs), ValueDef::Variant(x)) => match vs.iter().find(|t| t.0 == x.name) {
                None => BTreeSet::new(),
                Some((_, ix, fs)) => self.fields_after(&x.values, fs, vec![*ix]),
            },
            (T::Seq(i), ValueDef::Composite(c)) => {
                let mut l = vec![];
                Compact(c.len() as u64).encode_to(&mut l);
                self.product(&mut c.values().map(|x| (x, *i)), l)
            }
            (T::Array(n, i), ValueDef::Composite(c)) if *n as usize == c.len() => self.product(&mut c.values().map(|x| (x, *i)), vec![]),
            (T::Bits(s, m), ValueDef::Composite(c)) => match as_bits(c) {
                Some(bits) => {
                    let mut o = vec![];
                    enc_bits(*s, *m, &bits, &mut o);
                    BTreeSet::from([o])
                }
                None => BTreeSet::new(),
            },
            (T::Bits(s, m), ValueDef::BitSequence(b)) => {
                let mut o = vec![];
                enc_bits(*s, *m, &b.iter().collect::<Vec<_>>(), &mut o);
                BTreeSet::from([o])
            }
            (_, ValueDef::Primitive(p)) => prim_readings(reg, p, id),
            _ => BTreeSet::new(),
        }
    }
}

/// Which value goes to which field: by name if both sides have names, else by position.
pub fn assign<'v, X>(c: &'v Composite<X>, fs: &[F]) -> Option<Vec<&'v Value<X>>> {
    let target_named = fs.iter().any(|f| f.0.is_some());
    match c {
        Composite::Named(vs) if target_named && !vs.is_empty() => fs
            .iter()
            .map(|f| {
                let n = f.0.as_deref().unwrap_or("");
                vs.iter().rev().find(|x| x.0 == n).map(|x| &x.1)
            })
            .collect(),
        _ => {
            if c.len() != fs.len() {
                return None;
            }
            Some(c.values().collect())
        }
    }
}

fn as_bits<X>(c: &Composite<X>) -> Option<Vec<bool>> {
    c.values()
        .map(|v| match &v.value {
            ValueDef::Primitive(Primitive::Bool(b)) => Some(*b),
            ValueDef::Primitive(Primitive::U128(n)) if *n <= 1 => Some(*n == 1),
            ValueDef::Primitive(Primitive::I128(n)) if *n == 0 || *n == 1 => Some(*n == 1),
            _ => None,
        })
        .collect()
}

enum Num {
    U(u128),
    I(i128),
}
fn number_as(n: &Num, bits: u32, signed: bool) -> Option<Vec<u8>> {
    let nbytes = bits as usize / 8;
    match (n, signed) {
        (Num::U(n), false) if bits == 128 || n >> bits == 0 => Some(n.to_le_bytes()[..nbytes].to_vec()),
        (Num::U(n), true) if n >> (bits - 1) == 0 => Some(n.to_le_bytes()[..nbytes].to_vec()),
        (Num::I(n), true) => {
            let sh = 128 - bits;
            ((n << sh) >> sh == *n).then(|| n.to_le_bytes()[..nbytes].to_vec())
        }
        (Num::I(n), false) if *n >= 0 => number_as(&Num::U(*n as u128), bits, false),
        _ => None,
    }
}

fn prim_readings(reg: &Reg, p: &Primitive, id: Id) -> BTreeSet<Vec<u8>> {
    let mut out = BTreeSet::new();
    let num = match p {
        Primitive::U128(n) => Some(Num::U(*n)),
        Primitive::I128(n) => Some(Num::I(*n)),
        Primitive::Char(c) => Some(Num::U(*c as u128)),
        _ => None,
    };
    match (reg.get(id), p) {
        (T::Prim(t), _) => {
            if let (Some((bits, signed)), Some(n)) = (int_bits(*t), &num) {
                out.extend(number_as(n, bits, signed));
            }
            match (t, p) {
                (P::Bool, Primitive::Bool(b)) => out.extend([vec![*b as u8]]),
                (P::Char, Primitive::Char(c)) => out.extend([(*c as u32).to_le_bytes().to_vec()]),
                (P::Str, Primitive::String(s)) => out.extend([s.encode()]),
                (P::U256, Primitive::U256(b)) | (P::I256, Primitive::I256(b)) => out.extend([b.to_vec()]),
                _ => {}
            }
        }
        (T::Compact(_), _) => {
            // Compact of an unsigned integer, or of single-field wrappers around one.
            let mut i = id;
            for _ in 0..8 {
                match reg.get(i) {
                    T::Compact(x) => i = *x,
                    T::Struct(f) if f.len() == 1 => i = f[0].1,
                    T::Tuple(f) if f.len() == 1 => i = f[0],
                    _ => break,
                }
            }
            if let (T::Prim(t), Some(n)) = (reg.get(i), &num) {
                if let Some((bits, false)) = int_bits(*t) {
                    if let Some(b) = number_as(n, bits, false) {
                        let mut a = [0u8; 16];
                        a[..b.len()].copy_from_slice(&b);
                        out.insert(Compact(u128::from_le_bytes(a)).encode());
                    }
                }
            }
        }
        // 256 bit numbers are 32 bytes, which also makes them a list of numbers.
        (T::Seq(i), Primitive::U256(b) | Primitive::I256(b)) => {
            if let Some(x) = byte_list(reg, b, *i) {
                let mut o = Compact(32u32).encode();
                o.extend(x);
                out.insert(o);
            }
        }
        (T::Array(32, i), Primitive::U256(b) | Primitive::I256(b)) => out.extend(byte_list(reg, b, *i)),
        _ => {}
    }
    out
}
fn byte_list(reg: &Reg, b: &[u8; 32], i: Id) -> Option<Vec<u8>> {
    let mut out = vec![];
    for x in b {
        let v = w::u(*x as u128);
        out.extend(Readings::of(reg, &v, i)?.first()?);
    }
    Some(out)
}

/// The encoding of a value which has exactly the layers of the type (fields matched by name where
/// both sides have names): no layer added, none missing.
pub fn exact<X>(reg: &Reg, v: &Value<X>, id: Id) -> Option<Vec<u8>> {
    let fields = |c: &Composite<X>, fs: &[F], mut out: Vec<u8>| -> Option<Vec<u8>> {
        for (x, f) in assign(c, fs)?.into_iter().zip(fs) {
            out.extend(exact(reg, x, f.1)?);
        }
        Some(out)
    };
    match (reg.defs.get(id as usize)?, &v.value) {
        (T::Struct(fs), ValueDef::Composite(c)) => fields(c, fs, vec![]),
        (T::Tuple(is), ValueDef::Composite(c)) => fields(c, &is.iter().map(|i| un(*i)).collect::<Vec<_>>(), vec![]),
        (T::Enum(vs), ValueDef::Variant(x)) => {
            let (_, ix, fs) = vs.iter().find(|t| t.0 == x.name)?;
            fields(&x.values, fs, vec![*ix])
        }
        (T::Seq(i), ValueDef::Composite(c @ Composite::Unnamed(_))) => fields(c, &vec![un(*i); c.len()], Compact(c.len() as u64).encode()),
        (T::Array(n, i), ValueDef::Composite(c @ Composite::Unnamed(_))) if *n as usize == c.len() => fields(c, &vec![un(*i); c.len()], vec![]),
        (T::Bits(s, m), ValueDef::BitSequence(b)) => {
            let mut o = vec![];
            enc_bits(*s, *m, &b.iter().collect::<Vec<_>>(), &mut o);
            Some(o)
        }
        (T::Prim(_), ValueDef::Primitive(p)) => prim_readings(reg, p, id).pop_first(),
        (T::Compact(i), _) => {
            let mut o = vec![];
            reg.enc(*i, &v.value, true, &mut o)?;
            Some(o)
        }
        _ => None,
    }
}

/// Compare one real encoding with the readings of the value. `must`: some reading has to succeed.
pub fn judge<X>(c: &Corpus, id: Id, v: &Value<X>, must: bool) -> Verdict {
    let got = real_encode(c, id, v);
    let ex = exact(&c.reg, v, id);
    match (&got, &ex) {
        (Ok(b), Some(e)) if b != e => return Err(format!("encodes to {} although its exact reading is {}", hex(b), hex(e))),
        (Err(m), Some(e)) => return Err(format!("refused ({m}) although it fits the type exactly, as {}", hex(e))),
        (Ok(_), Some(_)) => return Ok("exact"),
        _ => {}
    }
    let Some(set) = Readings::of(&c.reg, v, id) else { return Ok("too ambiguous to judge") };
    match got {
        Ok(b) => {
            if !set.contains(&b) {
                return Err(format!("encodes to {}, but the readings of this value are {:?}", hex(&b), set.iter().map(|x| hex(x)).collect::<Vec<_>>()));
            }
            Ok(if set.len() > 1 { "one of several readings" } else { "only reading" })
        }
        Err(e) => {
            if must && !set.is_empty() {
                return Err(format!("refused ({e}) although it can be read as {:?}", set.iter().map(|x| hex(x)).collect::<Vec<_>>()));
            }
            Ok(if set.is_empty() { "refused, does not fit" } else { "refused, fits only with layers changed" })
        }
    }
}

fn desc<X>(c: &Corpus, id: Id, v: &Value<X>) -> String {
    format!("value {} as type #{id} {}", showv(v), c.reg.show(id))
}

// ------------------------------------------------------------------ E01
pub fn e01(tier: Tier) -> Vec<Item> {
    let bytes_first = |c: &Corpus, id: Id, b: &[u8], d: &Dec, rec: &mut Rec| {
        if matches!(d, Dec::Done(_, n) if *n == b.len()) {
            rec.case(|| format!("type #{id} {} bytes {}", c.reg.show(id), hex(b)), || e01_bytes(c, id, b, d));
        }
    };
    let mut items = big::inputs(tier, move |c, id, b, d, rec| bytes_first(c, id, b, d, rec));
    items.extend(big::values(tier, |c, id, v, _, rec| rec.case(|| desc(c, id, v), || e01_value(c, id, v))));
    items.extend(per_type(tier, move |c, id, depth, rec| {
        // bytes -> value -> bytes
        for_inputs(c, id, depth, rec.tier, &mut |b, d| bytes_first(c, id, b, d, rec));
        // value -> bytes -> value
        let lim = crate::inputs::limits(rec.tier, depth);
        for v in c.reg.domain(id, lim.rich, 8, lim.values * 3) {
            rec.case(|| desc(c, id, &v), || e01_value(c, id, &v));
        }
    }));
    items
}
fn e01_bytes(c: &Corpus, id: Id, b: &[u8], d: &Dec) -> Verdict {
    let Dec::Done(want, _) = d else { return Ok("skipped") };
    steps(2);
    let canonical = c.reg.encode(id, want).ok_or("no reference encoding")?;
    let v = scale::decode_as_type(&mut &*b, id, &c.types).map_err(|e| format!("refused: {e}"))?;
    let again = real_encode(c, id, &v).map_err(|e| format!("{} decoded from these bytes does not encode: {e}", showv(&v)))?;
    if again != canonical {
        return Err(format!("decodes to {} which encodes to {} instead of {}", showv(&v), hex(&again), hex(&canonical)));
    }
    Ok(if canonical == *b { "same bytes" } else { "canonical bytes" })
}
fn e01_value(c: &Corpus, id: Id, v: &Value<u32>) -> Verdict {
    let want = c.reg.encode(id, v).ok_or("no reference encoding")?;
    let got = real_encode(c, id, v)?;
    if got != want {
        return Err(format!("encodes to {} instead of {}", hex(&got), hex(&want)));
    }
    // (256 bit numbers can only be read at the very end of the input.)
    if c.reg.decode(id, &want) == Dec::Skip {
        return Ok("encodes, 256 bit inside");
    }
    step();
    let cur = &mut &*got;
    let back = scale::decode_as_type(cur, id, &c.types).map_err(|e| format!("own encoding {} refused: {e}", hex(&got)))?;
    if !crate::d::same_content(&back, v) || !cur.is_empty() {
        return Err(format!("comes back as {} with {} bytes left", showv(&back), cur.len()));
    }
    Ok("value comes back")
}

// ------------------------------------------------------------------ E02
/// All sequences without repetition over `pool` of length up to `n`.
fn arrangements(pool: &[&'static str], n: usize) -> Vec<Vec<&'static str>> {
    let mut out: Vec<Vec<&'static str>> = vec![vec![]];
    let mut last: Vec<Vec<&'static str>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for p in &last {
            for x in pool {
                if !p.contains(x) {
                    let mut q = p.clone();
                    q.push(x);
                    next.push(q);
                }
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}
fn permutations<X: Clone>(xs: &[X]) -> Vec<Vec<X>> {
    if xs.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..xs.len() {
        let mut rest = xs.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

pub fn e02(_tier: Tier) -> Vec<Item> {
    let mut items = vec![];
    // (1) All field lists against all field lists: types with field names in every arrangement,
    // values with field names in every arrangement, in struct, variant and field-list position.
    // The width of a field's type depends on its position, the number in a value on its name.
    let pools: [([&'static str; 4], usize); 6] = [
        (["a", "b", "c", "d"], 4),
        (["x", "xy", "", "é\n"], 4),
        (["0", "1", "2", "3"], _tier.pick(3, 4)),
        (["_", "__", "a_", "_a"], _tier.pick(3, 4)),
        (["r#a", "a", "A", "Aa"], _tier.pick(3, 4)),
        (["Some", "None", "0x1", "1a"], _tier.pick(3, 4)),
    ];
    for (pool, most) in pools {
        for tn in arrangements(&pool, most) {
            items.push(item(format!("fields {tn:?}"), move |rec: &mut Rec| {
                let mut r = Reg::new();
                let tys = [r.p(P::U8), r.p(P::U16), r.p(P::U32), r.p(P::U64)];
                let fs: Vec<F> = tn.iter().zip(tys).map(|(n, t)| named(n, t)).collect();
                let uns: Vec<F> = tn.iter().zip(tys).map(|(_, t)| un(t)).collect();
                let s_named = r.add(T::Struct(fs.clone()));
                let s_unnamed = r.add(T::Struct(uns.clone()));
                let tup = r.tup(&tys[..tn.len()]);
                let e_named = r.add(T::Enum(vec![("O".into(), 0, vec![]), ("V".into(), 3, fs.clone())]));
                let e_unnamed = r.add(T::Enum(vec![("O".into(), 0, vec![]), ("V".into(), 3, uns.clone())]));
                let wrapped = r.wrap(s_named);
                let seq = r.seq(s_named);
                let types = r.portable();
                let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
                let extra: &[&'static str] = &["zz", "A"];
                let mut names: Vec<Vec<&'static str>> = arrangements(&pool, most);
                for a in arrangements(&pool, most.min(3)) {
                    for e in extra {
                        for k in 0..=a.len() {
                            let mut x = a.clone();
                            x.insert(k, e);
                            names.push(x);
                        }
                    }
                }
                if rec.tier == Tier::Thorough {
                    for a in arrangements(&pool, most) {
                        for k in 0..=a.len() {
                            for j in k..=a.len() {
                                let mut x = a.clone();
                                x.insert(j, "zz");
                                x.insert(k, "A");
                                names.push(x);
                            }
                        }
                    }
                }
                for vn in names {
                    let num = |n: &str| w::u(11 + pool.iter().chain(extra).position(|p| *p == n).unwrap() as u128 * 17);
                    let cn = Composite::Named(vn.iter().map(|n| (n.to_string(), num(n))).collect());
                    let cu = Composite::Unnamed(vn.iter().map(|n| num(n)).collect());
                    for (comp, value_named) in [(&cn, true), (&cu, false)] {
                        for (kind, id, target) in [("fields", s_named, &fs), ("fields", s_unnamed, &uns), ("struct", s_named, &fs), ("struct", s_unnamed, &uns), ("tuple", tup, &uns), ("wrapped struct", wrapped, &fs), ("list of structs", seq, &fs), ("variant", e_named, &fs), ("variant", e_unnamed, &uns)] {
                            let base = w::v(ValueDef::Composite(comp.clone()));
                            let v = match kind {
                                "variant" => w::var("V", comp.clone()),
                                "wrapped struct" => w::un(vec![base]),
                                "list of structs" => w::un(vec![base.clone(), base]),
                                _ => base,
                            };
                            rec.case(|| format!("{kind} {}", desc(&c, id, &v)), || e02_case(&c, id, kind, &v, comp, target, value_named));
                        }
                    }
                }
            }));
        }
    }
    // (1b) All pairs of names from a list of look-alikes.
    for part in 0..16usize {
        items.push(item(format!("names that look alike {part}"), move |rec: &mut Rec| look_alikes(part, 16, rec)));
    }
    // (1c) Many fields: other orders, surplus and missing names.
    items.extend(big::values(_tier, |c, id, v, e, rec| {
        for x in rearranged(&strip(v)) {
            rec.case(
                || desc(c, id, &x.1),
                || {
                    let r = judge(c, id, &x.1, false)?;
                    match (x.0, r) {
                        ("reordered", "exact") if real_encode(c, id, &x.1)? != e => Err(format!("not the bytes of the original order {}", hex(e))),
                        ("reordered", r) if r != "exact" => Err(format!("outcome: {r}")),
                        ("reordered", _) => Ok("reordered"),
                        (_, "refused, does not fit") => Ok(if x.0 == "missing" { "name missing" } else { "wrong number" }),
                        (_, r) => Ok(r),
                    }
                },
            );
        }
    }));
    // (2) Every struct and enum of the corpus: every order of the named fields (at each level in turn).
    items.extend(per_type(_tier, |c, id, depth, rec| {
        let lim = crate::inputs::limits(rec.tier, depth);
        for v in c.reg.domain(id, 1, 8, lim.values.min(rec.tier.pick(6, 24))) {
            let Some(want) = c.reg.encode(id, &v) else { continue };
            for x in reorderings(&v, rec.tier.pick(2, 3)) {
                rec.case(
                    || desc(c, id, &x),
                    || {
                        let got = real_encode(c, id, &x).map_err(|e| format!("refused: {e}"))?;
                        if got != want {
                            return Err(format!("encodes to {} instead of {}", hex(&got), hex(&want)));
                        }
                        Ok("reordered")
                    },
                );
            }
        }
    }));
    items
}
/// Names which some sloppy comparison could take for each other.
pub const LOOK_ALIKES: [&str; 58] = [
    "foo", "Foo", "FOO", " foo", "foo ", "foo\0", "fo", "fooo", "oof", "r#foo", "_foo", "foo_", "__foo", "foo_bar", "fooBar", "FooBar", "foo-bar", "foobar", "foo bar", "foo.bar", "foo::bar", "", " ", "_", "__", "0", "1", "2", "01", "10", "_0", "field0", "[0]", "-1", "é", "e\u{301}", "É",
    "a", "A", "\"a\"", "'a'", "ａ", "а", "true", "false", "none", "None", "null", "type", "r#type", "ss", "ß", "i", "I", "ı", "İ", "long_long_long_long_long_long_long_long_1", "long_long_long_long_long_long_long_long_2",
];
fn look_alikes(part: usize, parts: usize, rec: &mut Rec) {
    let n = LOOK_ALIKES.len();
    for p in (part..n).step_by(parts) {
        let mut r = Reg::new();
        let tys = [r.p(P::U8), r.p(P::U16), r.p(P::U32)];
        let mut ids = vec![];
        for q in 0..n {
            if p == q {
                continue;
            }
            let fs = vec![named(LOOK_ALIKES[p], tys[0]), named(LOOK_ALIKES[q], tys[1])];
            let third = (0..n).find(|x| *x != p && *x != q).unwrap();
            let fs3 = vec![named(LOOK_ALIKES[p], tys[0]), named(LOOK_ALIKES[q], tys[1]), named(LOOK_ALIKES[third], tys[2])];
            let s = r.add(T::Struct(fs.clone()));
            let s3 = r.add(T::Struct(fs3.clone()));
            let e = r.add(T::Enum(vec![("O".into(), 0, vec![]), ("V".into(), 3, fs.clone())]));
            ids.push((q, third, s, s3, e, fs, fs3));
        }
        let types = r.portable();
        let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
        for (q, third, s, s3, e, fs, fs3) in ids {
            let (a, b) = (LOOK_ALIKES[p], LOOK_ALIKES[q]);
            let t = LOOK_ALIKES[third];
            let x = "zz";
            let lists: Vec<Vec<&str>> = vec![vec![a, b], vec![b, a], vec![a, x, b], vec![b, x, a], vec![a, x], vec![x, b], vec![b, x], vec![a], vec![b], vec![t, b, a], vec![b, t, a], vec![b, a, t], vec![t, a], vec![t, b]];
            for l in lists {
                let comp = Composite::Named(l.iter().map(|k| (k.to_string(), w::u(11 + [a, b, t, x].iter().position(|y| y == k).unwrap() as u128 * 17))).collect());
                for (kind, id, f) in [("fields", s, &fs), ("fields", s3, &fs3), ("struct", s, &fs), ("struct", s3, &fs3), ("variant", e, &fs)] {
                    let v = if kind == "variant" { w::var("V", comp.clone()) } else { w::v(ValueDef::Composite(comp.clone())) };
                    rec.case(|| format!("{kind} {}", desc(&c, id, &v)), || e02_case(&c, id, kind, &v, &comp, f, true));
                }
            }
        }
    }
}
/// The named fields of the value itself in other orders, with surplus, missing, and without names.
fn rearranged(v: &V) -> Vec<(&'static str, V)> {
    let (c, wrap): (&Composite<()>, Box<dyn Fn(Composite<()>) -> V>) = match &v.value {
        ValueDef::Composite(c) => (c, Box::new(|c| w::v(ValueDef::Composite(c)))),
        ValueDef::Variant(x) => {
            let n = x.name.clone();
            (&x.values, Box::new(move |c| w::var(&n, c)))
        }
        _ => return vec![],
    };
    let Composite::Named(xs) = c else { return vec![] };
    let n = xs.len();
    let mut out: Vec<(&'static str, Vec<(String, V)>)> = vec![];
    let z = |k: usize| (format!("surplus{k}"), w::s("surplus"));
    let mut rev = xs.clone();
    rev.reverse();
    out.push(("reordered", rev.clone()));
    rev.insert(n / 2, z(1));
    out.push(("reordered", rev));
    for k in 0..n {
        let near = n <= 40 || k < 4 || k + 4 >= n || k % 64 < 2;
        if !near {
            continue;
        }
        let mut y = xs.clone();
        y.rotate_left(k);
        out.push(("reordered", y));
        let mut y = xs.clone();
        y.swap(k, (k + 1) % n);
        out.push(("reordered", y));
        let mut y = xs.clone();
        y.insert(k, z(0));
        out.push(("reordered", y.clone()));
        y.push(z(1));
        out.push(("reordered", y));
        if n > 1 {
            let mut y = xs.clone();
            y.remove(k);
            out.push(("missing", y.clone()));
            y.push(z(0));
            out.push(("missing", y.clone()));
            y.push(z(1));
            out.push(("missing", y));
        }
    }
    let mut out: Vec<(&'static str, V)> = out.into_iter().map(|(l, x)| (l, wrap(Composite::Named(x)))).collect();
    // without names: by position
    let vals: Vec<V> = xs.iter().map(|x| x.1.clone()).collect();
    out.push(("reordered", wrap(Composite::Unnamed(vals.clone()))));
    if n > 1 {
        let mut y = vals.clone();
        y.pop();
        out.push(("number", wrap(Composite::Unnamed(y))));
        let mut y = vals;
        y.push(w::u(1));
        out.push(("number", wrap(Composite::Unnamed(y))));
    }
    out
}
fn e02_case(c: &Corpus, id: Id, kind: &str, v: &V, comp: &Composite<()>, fs: &[F], value_named: bool) -> Verdict {
    let got = if kind == "fields" {
        step();
        let fl: Vec<_> = fs.iter().map(|f| Field { name: f.0.as_deref(), id: f.1 }).collect();
        comp.encode_as_fields(&mut fl.into_iter(), &c.types).map_err(|e| e.to_string())
    } else {
        real_encode(c, id, v)
    };
    let want: Option<Vec<u8>> = assign(comp, fs).and_then(|xs| {
        let mut o = vec![];
        for (x, f) in xs.into_iter().zip(fs) {
            o.extend(c.reg.encode(f.1, x)?);
        }
        Some(match kind {
            "variant" => [vec![3], o].concat(),
            "list of structs" => [vec![8], o.clone(), o].concat(),
            _ => o,
        })
    });
    let by_name = value_named && fs.iter().any(|f| f.0.is_some());
    match (got, want) {
        (Ok(g), Some(x)) if g == x => Ok(if by_name { "by name" } else { "by position" }),
        (Ok(g), Some(x)) => Err(format!("encodes to {} instead of {}", hex(&g), hex(&x))),
        (Err(e), Some(x)) => Err(format!("refused ({e}) instead of {}", hex(&x))),
        (Err(_), None) => Ok(if by_name { "name missing" } else { "wrong number" }),
        (Ok(g), None) => {
            // Acceptable only as a reading that changes wrapper layers.
            let set = if kind == "fields" { Readings::fields(&c.reg, comp, fs) } else { Readings::of(&c.reg, v, id) }.ok_or("ambiguous")?;
            if set.contains(&g) {
                Ok("fits as a wrapper")
            } else {
                Err(format!("encodes to {} although fields are missing or too many", hex(&g)))
            }
        }
    }
}
/// All values that differ only in the order of named fields of up to `k` composites.
fn reorderings<X: Clone>(v: &Value<X>, k: usize) -> Vec<Value<X>> {
    let with = |d: ValueDef<X>| Value { value: d, context: v.context.clone() };
    match &v.value {
        ValueDef::Composite(c) => reorder_c(c, k).into_iter().map(|c| with(ValueDef::Composite(c))).collect(),
        ValueDef::Variant(x) => reorder_c(&x.values, k).into_iter().map(|c| with(ValueDef::Variant(scale_value::Variant { name: x.name.clone(), values: c }))).collect(),
        _ => vec![v.clone()],
    }
}
fn reorder_c<X: Clone>(c: &Composite<X>, k: usize) -> Vec<Composite<X>> {
    match c {
        Composite::Unnamed(xs) => {
            if xs.len() > 4 {
                return vec![c.clone()];
            }
            let doms: Vec<Vec<Value<X>>> = xs.iter().map(|x| reorderings(x, k)).collect();
            cart(&doms, 60).into_iter().map(Composite::Unnamed).collect()
        }
        Composite::Named(xs) => {
            let inner: Vec<Vec<Value<X>>> = xs.iter().map(|x| if k > 1 && xs.len() <= 4 { reorderings(&x.1, k - 1) } else { vec![x.1.clone()] }).collect();
            let mut out = vec![];
            for vs in cart(&inner, 24) {
                let ys: Vec<(String, Value<X>)> = xs.iter().map(|x| x.0.clone()).zip(vs).collect();
                if ys.len() <= 4 {
                    out.extend(permutations(&ys).into_iter().map(Composite::Named));
                } else {
                    let mut rev = ys.clone();
                    rev.reverse();
                    out.push(Composite::Named(rev));
                    for r in 0..ys.len() {
                        let mut z = ys.clone();
                        z.rotate_left(r);
                        out.push(Composite::Named(z.clone()));
                        z.swap(0, r);
                        z.insert(r, ("surplus".into(), z[0].1.clone()));
                        out.push(Composite::Named(z));
                    }
                }
            }
            out
        }
    }
}

// ------------------------------------------------------------------ E03
/// All values that differ from `v` (of type `id`) by up to `k` wrapper layers added or removed.
fn relayered(reg: &Reg, v: &Value<u32>, id: Id, k: usize) -> Vec<(Value<u32>, usize)> {
    let mut out: Vec<(Value<u32>, usize)> = vec![];
    let mk = |d: ValueDef<u32>| Value { value: d, context: 0 };
    let fields = |c: &Composite<u32>, ids: &[Id], k: usize| -> Vec<(Composite<u32>, usize)> {
        // distribute up to k edits over the children (only over the first few of a long list)
        let mut acc: Vec<(Vec<Value<u32>>, usize)> = vec![(vec![], 0)];
        for (n, (x, i)) in c.values().zip(ids).enumerate() {
            let mut next = vec![];
            for (p, used) in &acc {
                if n >= 4 || *used == k {
                    let mut q = p.clone();
                    q.push(x.clone());
                    next.push((q, *used));
                } else {
                    for (y, u) in relayered(reg, x, *i, k - used) {
                        let mut q = p.clone();
                        q.push(y);
                        next.push((q, used + u));
                    }
                }
            }
            acc = next;
        }
        acc.into_iter()
            .map(|(vs, u)| {
                (
                    match c {
                        Composite::Named(old) => Composite::Named(old.iter().map(|o| o.0.clone()).zip(vs).collect()),
                        Composite::Unnamed(_) => Composite::Unnamed(vs),
                    },
                    u,
                )
            })
            .collect()
    };
    // same layers here, edits below
    match (reg.get(id), &v.value) {
        (T::Struct(fs), ValueDef::Composite(c)) => out.extend(fields(c, &fs.iter().map(|f| f.1).collect::<Vec<_>>(), k).into_iter().map(|(c, u)| (mk(ValueDef::Composite(c)), u))),
        (T::Tuple(is), ValueDef::Composite(c)) => out.extend(fields(c, is, k).into_iter().map(|(c, u)| (mk(ValueDef::Composite(c)), u))),
        (T::Seq(i) | T::Array(_, i), ValueDef::Composite(c)) => out.extend(fields(c, &vec![*i; c.len()], k).into_iter().map(|(c, u)| (mk(ValueDef::Composite(c)), u))),
        (T::Enum(vs), ValueDef::Variant(x)) => {
            let f = &vs.iter().find(|t| t.0 == x.name).unwrap().2;
            out.extend(fields(&x.values, &f.iter().map(|f| f.1).collect::<Vec<_>>(), k).into_iter().map(|(c, u)| (mk(ValueDef::Variant(scale_value::Variant { name: x.name.clone(), values: c })), u)))
        }
        (T::Compact(i), _) if matches!(reg.get(*i), T::Struct(_) | T::Tuple(_)) => return relayered(reg, v, *i, k),
        _ => out.push((v.clone(), 0)),
    }
    if k == 0 {
        return out;
    }
    // a layer removed here
    if let ValueDef::Composite(c) = &v.value {
        let inner = match reg.get(id) {
            T::Struct(f) if f.len() == 1 => Some(f[0].1),
            T::Tuple(f) if f.len() == 1 => Some(f[0]),
            _ => None,
        };
        if let (Some(i), Some(x)) = (inner, c.values().next()) {
            out.extend(relayered(reg, x, i, k - 1).into_iter().map(|(y, u)| (y, u + 1)));
        }
    }
    // a layer added here
    for (y, u) in relayered(reg, v, id, k - 1) {
        out.push((mk(ValueDef::Composite(Composite::Unnamed(vec![y.clone()]))), u + 1));
        let n = if u % 2 == 0 { "w" } else { "a" };
        out.push((mk(ValueDef::Composite(Composite::Named(vec![(n.into(), y)]))), u + 1));
    }
    out
}
pub fn e03(tier: Tier) -> Vec<Item> {
    let mut items = per_type(tier, |c, id, depth, rec| {
        let q = rec.tier == Tier::Quick;
        let n = if q { [8, 5, 2, 2] } else { [12, 10, 6, 4] }[depth.min(3) as usize];
        let k = if q { [3, 2, 2, 1] } else { [3, 3, 2, 2] }[depth.min(3) as usize];
        e03_type(c, id, n, k, rec);
    });
    // Deep nesting, with a layer added or removed at each level in turn.
    items.extend(big::values(tier, |c, id, v, e, rec| {
        if nodes_of(v) > 60 || e.len() > 400 {
            return;
        }
        e03_values(c, id, v, 1, &mut Default::default(), rec);
    }));
    // Towers of wrappers around collections, deeper than the corpus.
    let tower = tier.pick(3, 4);
    let mut r = Reg::new();
    let u8_ = r.p(P::U8);
    let str_ = r.p(P::Str);
    let bits = r.add(T::Bits(Store::U8, false));
    let lst = r.seq(u8_);
    let pair = r.st(&[("a", u8_), ("b", u8_)]);
    let opt = r.opt(u8_);
    let a1 = r.arr(1, u8_);
    let mut ids: Vec<Id> = vec![];
    let mut layer: Vec<Id> = vec![u8_, str_, bits, lst, pair, opt, a1];
    for _ in 0..tower {
        let mut next = vec![];
        for x in layer {
            next.extend([r.wrap(x), r.nwrap("a", x), r.tup(&[x]), r.seq(x)]);
        }
        ids.extend(&next);
        layer = next;
    }
    let types = r.portable();
    let c: &'static Corpus = Box::leak(Box::new(Corpus { reg: r, types, ids: vec![], odd: vec![] }));
    items.extend(tall(tier));
    for id in ids {
        items.push(item(format!("tower {}", c.reg.show(id)), move |rec: &mut Rec| {
            let t = rec.tier;
            e03_type(c, id, t.pick(4, 8), t.pick(2, 3), rec)
        }));
    }
    items
}
/// Single-entry layers to any height in the type, on the value, and on both.
fn tall(tier: Tier) -> Vec<Item> {
    let mut items = vec![];
    let top = tier.pick(34, 70);
    for kind in 0..5 {
        for (what, leaf) in [("u8", w::u(7)), ("list", w::un(vec![w::u(1), w::u(2)])), ("pair", w::nm(vec![("a", w::u(1)), ("b", w::u(2))])), ("str", w::s("hey")), ("some", w::var("Some", w::cu(vec![w::u(9)]))), ("bits", w::bits("101"))] {
            items.push(item(format!("{what} under up to {top} layers, kind {kind}"), move |rec: &mut Rec| {
                let mut r = Reg::new();
                let u8_ = r.p(P::U8);
                let core = match what {
                    "u8" => u8_,
                    "list" => r.seq(u8_),
                    "pair" => r.st(&[("a", u8_), ("b", u8_)]),
                    "str" => r.p(P::Str),
                    "some" => r.opt(u8_),
                    _ => r.add(T::Bits(Store::U8, false)),
                };
                let mut ids = vec![core];
                for n in 0..top {
                    let x = *ids.last().unwrap();
                    let k = if kind < 4 { kind } else { n % 4 };
                    ids.push(match k {
                        0 => r.wrap(x),
                        1 => r.nwrap("a", x),
                        2 => r.tup(&[x]),
                        _ => r.arr(1, x),
                    });
                }
                let types = r.portable();
                let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
                let mut want: Option<Vec<u8>> = None;
                for (d, id) in ids.iter().enumerate() {
                    let mut x = leaf.clone();
                    for k in 0..=d + 3 {
                        let all = rec.tier == Tier::Thorough || d <= 16;
                        if all || k <= 3 || k >= d || k == d / 2 || k == d - 8 {
                            rec.case(
                                || format!("{k} layers on {} as {what} under {d} layers, kind {kind}", showv(&leaf)),
                                || {
                                    step();
                                    let b = real_encode(&c, *id, &x).map_err(|e| format!("refused: {e}"))?;
                                    let w = want.get_or_insert_with(|| b.clone());
                                    if b != *w {
                                        return Err(format!("encodes to {} instead of {}", hex(&b), hex(w)));
                                    }
                                    judge(&c, *id, &x, true)
                                },
                            );
                        }
                        x = if k % 2 == 0 { w::un(vec![x]) } else { w::nm(vec![("a", x)]) };
                    }
                }
            }));
        }
    }
    items
}
fn e03_type(c: &Corpus, id: Id, n: usize, k: usize, rec: &mut Rec) {
    let mut seen = std::collections::HashSet::new();
    for v in c.reg.domain(id, 1, 10, n) {
        if c.reg.encode(id, &v).is_none() || nodes_of(&v) > 40 {
            continue;
        }
        e03_values(c, id, &v, k, &mut seen, rec);
    }
}
fn e03_values(c: &Corpus, id: Id, v: &Value<u32>, k: usize, seen: &mut std::collections::HashSet<String>, rec: &mut Rec) {
    for (x, used) in relayered(&c.reg, v, id, k) {
        let x = strip(&x);
        if !seen.insert(showv(&x)) {
            continue;
        }
        rec.case(
            || desc(c, id, &x),
            || {
                let r = judge(c, id, &x, true)?;
                Ok(match (used, r) {
                    (0, _) => "layers as they are",
                    (_, "exact") => "exact after changing layers",
                    (_, r) => r,
                })
            },
        );
    }
}
fn strip<X>(v: &Value<X>) -> V {
    w::strip(v)
}
fn nodes_of<X>(v: &Value<X>) -> u64 {
    crate::d::nodes(v)
}

// ------------------------------------------------------------------ E04
pub fn e04(tier: Tier) -> Vec<Item> {
    let mut items = vec![];
    // (1) Every number against every number type.
    items.push(item("numbers", |rec: &mut Rec| {
        let mut r = Reg::new();
        let mut ids = vec![];
        for p in ALL_PRIMS {
            let i = r.p(p);
            ids.push(i);
            let c = r.add(T::Compact(i));
            if UINTS.contains(&p) {
                ids.push(c);
                let w1 = r.wrap(i);
                ids.push(r.add(T::Compact(w1)));
            }
            ids.push(r.wrap(i));
            ids.push(r.arr(1, i));
            ids.push(r.seq(i));
            ids.push(r.tup(&[i]));
        }
        let types = r.portable();
        let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
        let mut vs: Vec<V> = vec![];
        for k in 0..=128u32 {
            let x: u128 = if k == 128 { u128::MAX } else { 1u128 << k };
            for d in -2i32..=2 {
                vs.push(w::u(x.wrapping_add(d as u128)));
                vs.push(w::i((x as i128).wrapping_add(d as i128)));
                vs.push(w::i((x as i128).wrapping_neg().wrapping_add(d as i128)));
            }
        }
        for k in 0..256 {
            vs.push(w::u(k));
            vs.push(w::i(k as i128));
            vs.push(w::i(-(k as i128)));
        }
        for ch in (0..0x180u32).chain([0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000]).filter_map(char::from_u32) {
            vs.push(w::ch(ch));
        }
        vs.extend([w::b(true), w::b(false), w::s("a"), w::s(""), w::s("1")]);
        for k in [0u8, 1, 0xff] {
            vs.push(w::p(Primitive::U256([k; 32])));
            vs.push(w::p(Primitive::I256([k; 32])));
        }
        let mut seen = std::collections::HashSet::new();
        vs.retain(|v| seen.insert(showv(v)));
        for id in ids {
            for v in &vs {
                rec.case(|| desc(&c, id, v), || judge(&c, id, v, true));
            }
        }
    }));
    // (2) Every value of a pool of trees against every type.
    items.extend(per_type(tier, |c, id, depth, rec| {
        static POOL: std::sync::OnceLock<(Vec<V>, Vec<V>)> = std::sync::OnceLock::new();
        let (small, large) = POOL.get_or_init(|| (pool(1), pool(2)));
        let tier = rec.tier;
        let pool = if depth <= tier.pick(1, 2) { large } else { small };
        for v in pool {
            rec.case(|| desc(c, id, v), || judge(c, id, v, false));
        }
    }));
    // (3) Values of one type against every other type.
    items.extend(per_type(tier, |c, id, depth, rec| {
        if depth > rec.tier.pick(1, 2) {
            return;
        }
        let own = c.reg.domain(id, 0, 6, 3);
        for &(other, d2) in &c.ids {
            if d2 > 1 && (other as usize) % rec.tier.pick(9, 2) != 0 {
                continue;
            }
            for v in own.iter().take(if d2 <= 1 { 3 } else { 2 }) {
                rec.case(|| desc(c, other, v), || judge(c, other, v, false));
            }
        }
    }));
    // (4) Near misses: a value of the type with one node replaced, dropped, doubled or renamed.
    items.extend(per_type(tier, |c, id, depth, rec| {
        let n = rec.tier.pick([4, 3, 2, 1], [12, 8, 4, 3])[depth.min(3) as usize];
        let mut seen = std::collections::HashSet::new();
        for v in c.reg.domain(id, 1, 8, n) {
            let v = strip(&v);
            if nodes_of(&v) > 30 {
                continue;
            }
            for x in mutants(&v) {
                if seen.insert(showv(&x)) {
                    rec.case(|| desc(c, id, &x), || judge(c, id, &x, false));
                }
            }
        }
    }));
    // (5) Arrays with another number of items, also by amounts that overflow small counters.
    items.push(item("array lengths", |rec: &mut Rec| {
        let mut r = Reg::new();
        let elems = [r.p(P::U8), r.p(P::Str), r.tup(&[]), r.p(P::Bool)];
        let lens: Vec<usize> = (0..=rec.tier.pick(40, 200)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512]).collect();
        let mut ids = vec![];
        for (k, e) in elems.iter().enumerate() {
            for n in &lens {
                let a = r.arr(*n as u32, *e);
                let s = r.st(&[("l", a), ("m", elems[0])]);
                ids.push((k, *n, a, false));
                ids.push((k, *n, s, true));
            }
        }
        let types = r.portable();
        let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
        let x = [w::u(7), w::s("s"), w::un(vec![]), w::b(true)];
        for (k, n, id, framed) in ids {
            let mut counts = vec![n, n + 1, n + 2, n + 16, n + 128, n + 256, 2 * n, 0, 1, n % 256];
            counts.extend([n.wrapping_sub(1), n.wrapping_sub(2), n / 2, n.wrapping_sub(256), n.wrapping_sub(128)].into_iter().filter(|x| *x < n));
            if n % 16 == 0 {
                counts.push(n + 65536);
            }
            counts.sort();
            counts.dedup();
            for m in counts {
                let l = w::un(vec![x[k].clone(); m]);
                let v = if framed { w::nm(vec![("l", l), ("m", w::u(3))]) } else { l };
                rec.case(
                    || format!("{m} items {} as {}", showv(&x[k]), c.reg.show(id)),
                    || match (real_encode(&c, id, &v), exact(&c.reg, &v, id)) {
                        (Ok(b), Some(e)) if b == e => Ok("exact"),
                        (Err(_), None) => Ok("refused, does not fit"),
                        (Ok(_), None) if m <= 1 || n <= 1 => judge(&c, id, &v, false),
                        (Ok(b), _) => Err(format!("{n} items wanted, {m} given, encodes to {} bytes", b.len())),
                        (Err(e), _) => Err(format!("refused: {e}")),
                    },
                );
            }
        }
    }));
    // (6) One leaf anywhere in a large or deep value replaced.
    items.extend(big::values(tier, |c, id, v, e, rec| {
        let total = nodes_of(v);
        if total < 2 || total > rec.tier.pick(130, 700) || e.len() > 20_000 {
            return;
        }
        let v = strip(v);
        // (the effort of refusing grows quickly with the number of layers on both sides: see E06)
        if layers(&v) > 6 {
            return;
        }
        let n = count_leaves(&v);
        let bad = [w::u(u128::MAX), w::i(-1), w::s("x"), w::un(vec![]), w::var("Nope", w::cu(vec![])), w::bits("1")];
        for k in (0..n).filter(|k| n <= 24 || *k < 3 || k + 3 > n || k % 32 == 0 || k % 32 == 31) {
            // for long values, not every replacement at every place
            for (j, b) in bad.iter().enumerate() {
                if n > 24 && (k + j) % 3 != 0 {
                    continue;
                }
                let mut at = k;
                let x = replace_leaf(&v, &mut at, b);
                rec.case(|| desc(c, id, &x), || judge(c, id, &x, false));
            }
        }
    }));
    // (7) Variant names that look alike.
    items.push(item("variant names that look alike", |rec: &mut Rec| {
        let mut r = Reg::new();
        let u8_ = r.p(P::U8);
        let mut ids = vec![];
        for (k, n) in LOOK_ALIKES.iter().enumerate() {
            let m = LOOK_ALIKES[(k + 1) % LOOK_ALIKES.len()];
            ids.push(r.add(T::Enum(vec![(n.to_string(), 4, vec![un(u8_)]), (m.to_string(), 2, vec![un(u8_)])])));
            ids.push(r.add(T::Enum(vec![(m.to_string(), 1, vec![]), (n.to_string(), 0, vec![])])));
        }
        ids.push(r.add(T::Enum(LOOK_ALIKES.iter().enumerate().map(|(k, n)| (n.to_string(), 200 - k as u8, vec![])).collect())));
        let types = r.portable();
        let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
        for id in ids {
            for n in LOOK_ALIKES {
                for v in [w::var(n, w::cu(vec![])), w::var(n, w::cu(vec![w::u(9)])), w::var(n, w::cn(vec![("x", w::u(9))])), w::s(n)] {
                    rec.case(|| desc(&c, id, &v), || judge(&c, id, &v, true));
                }
            }
        }
    }));
    // (8) Every small number, and every character, against the small types.
    for part in 0..16u32 {
        items.push(item(format!("all small numbers {part}"), move |rec: &mut Rec| {
            let mut r = Reg::new();
            let mut ids: Vec<Id> = [P::U8, P::I8, P::U16, P::I16, P::Bool, P::Char, P::U32].map(|p| r.p(p)).to_vec();
            for k in [0, 2] {
                let t = r.add(T::Compact(ids[k]));
                ids.push(t);
            }
            let types = r.portable();
            let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
            for n in (part..66_000).step_by(16) {
                for v in [w::u(n as u128), w::i(n as i128), w::i(-(n as i128))] {
                    for id in &ids {
                        rec.case(|| desc(&c, *id, &v), || judge(&c, *id, &v, true));
                    }
                }
            }
            let all = rec.tier.pick(0x3000, 0x110000);
            for ch in (part..all).step_by(16).chain([0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff]).filter_map(char::from_u32) {
                for id in &ids {
                    let v = w::ch(ch);
                    rec.case(|| desc(&c, *id, &v), || judge(&c, *id, &v, true));
                }
            }
        }));
    }
    items
}
/// The largest number of single-item layers above any leaf.
fn layers(v: &V) -> usize {
    match &v.value {
        ValueDef::Composite(c) => (c.len() == 1) as usize + c.values().map(layers).max().unwrap_or(0),
        ValueDef::Variant(x) => x.values.values().map(layers).max().unwrap_or(0),
        _ => 0,
    }
}
fn count_leaves(v: &V) -> usize {
    match &v.value {
        ValueDef::Composite(c) if !c.is_empty() => c.values().map(count_leaves).sum(),
        ValueDef::Variant(x) if !x.values.is_empty() => x.values.values().map(count_leaves).sum(),
        _ => 1,
    }
}
/// The value with its n-th leaf replaced.
fn replace_leaf(v: &V, n: &mut usize, by: &V) -> V {
    let mut comp = |c: &Composite<()>| match c {
        Composite::Named(xs) => Composite::Named(xs.iter().map(|(k, x)| (k.clone(), replace_leaf(x, n, by))).collect()),
        Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(|x| replace_leaf(x, n, by)).collect()),
    };
    match &v.value {
        ValueDef::Composite(c) if !c.is_empty() => w::v(ValueDef::Composite(comp(c))),
        ValueDef::Variant(x) if !x.values.is_empty() => w::var(&x.name, comp(&x.values)),
        _ => {
            let hit = *n == 0;
            *n = n.wrapping_sub(1);
            if hit {
                by.clone()
            } else {
                v.clone()
            }
        }
    }
}
pub fn pool(depth: usize) -> Vec<V> {
    let mut sc = w::few();
    sc.extend([w::u(0), w::u(1), w::u(256), w::u(u128::MAX), w::i(5), w::s(""), w::ch('a'), w::bits(""), w::p(Primitive::U256([3; 32]))]);
    let mut out = w::trees(&sc, 1, 2, &["a", "b"], &["B", "None", "Some"]);
    if depth >= 2 {
        let inner = w::trees(&[w::u(1), w::b(true)], 1, 2, &["a", "b"], &["Some"]);
        out.extend(w::containers(&inner, 1, &["a", "b"], &["B", "Some"]));
        let inner2 = w::containers(&inner, 1, &["b"], &["None"]);
        out.extend(w::containers(&inner2, 1, &["a"], &[]));
        out.extend(w::containers(&inner[..inner.len().min(14)], 2, &["a", "b"], &["C"]));
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|v| seen.insert(showv(v)));
    out
}
/// All single-node changes of a value.
pub fn mutants(v: &V) -> Vec<V> {
    let mut out = vec![];
    let replacements = || {
        let mut r = w::few();
        r.extend([w::un(vec![]), w::nm(vec![]), w::var("Nope", w::cu(vec![])), w::u(u128::MAX), w::i(i128::MIN), w::s(""), w::u(1)]);
        r
    };
    match &v.value {
        ValueDef::Composite(c) => {
            out.extend(mutants_c(c).into_iter().map(|c| w::v(ValueDef::Composite(c))));
            out.push(w::var("A", c.clone()));
        }
        ValueDef::Variant(x) => {
            out.extend(mutants_c(&x.values).into_iter().map(|c| w::var(&x.name, c)));
            for n in ["A", "B", "C", "D", "None", "Some", "", "b", "Bx", "some"] {
                if n != x.name {
                    out.push(w::var(n, x.values.clone()));
                }
            }
            out.push(w::v(ValueDef::Composite(x.values.clone())));
        }
        _ => {}
    }
    out.extend(replacements());
    out
}
fn mutants_c(c: &Composite<()>) -> Vec<Composite<()>> {
    let mut out = vec![];
    let n = c.len();
    let set = |k: usize, x: V| match c {
        Composite::Named(xs) => {
            let mut xs = xs.clone();
            xs[k].1 = x;
            Composite::Named(xs)
        }
        Composite::Unnamed(xs) => {
            let mut xs = xs.clone();
            xs[k] = x;
            Composite::Unnamed(xs)
        }
    };
    for k in 0..n.min(5) {
        let x = c.values().nth(k).unwrap();
        out.extend(mutants(x).into_iter().map(|x| set(k, x)));
        // drop, double
        match c {
            Composite::Named(xs) => {
                let mut y = xs.clone();
                y.remove(k);
                out.push(Composite::Named(y));
                for nn in ["a", "b", "zz", "", "A"] {
                    let mut y = xs.clone();
                    y[k].0 = nn.into();
                    out.push(Composite::Named(y));
                }
                let mut y = xs.clone();
                y.insert(k, xs[k].clone());
                out.push(Composite::Named(y));
            }
            Composite::Unnamed(xs) => {
                let mut y = xs.clone();
                y.remove(k);
                out.push(Composite::Unnamed(y));
                let mut y = xs.clone();
                y.insert(k, xs[k].clone());
                out.push(Composite::Unnamed(y));
            }
        }
        if k + 1 < n {
            match c {
                Composite::Named(xs) => {
                    let mut y = xs.clone();
                    y.swap(k, k + 1);
                    out.push(Composite::Named(y));
                }
                Composite::Unnamed(xs) => {
                    let mut y = xs.clone();
                    y.swap(k, k + 1);
                    out.push(Composite::Unnamed(y));
                }
            }
        }
    }
    // names dropped or invented
    match c {
        Composite::Named(xs) => out.push(Composite::Unnamed(xs.iter().map(|x| x.1.clone()).collect())),
        Composite::Unnamed(xs) => {
            out.push(Composite::Named(xs.iter().enumerate().map(|(k, x)| (["a", "b", "c", "d"][k % 4].to_string(), x.clone())).collect()));
        }
    }
    out
}

// ------------------------------------------------------------------ E05
fn fields_of(c: &Corpus, id: Id) -> Option<Vec<F>> {
    match c.reg.get(id) {
        T::Struct(f) => Some(f.clone()),
        T::Tuple(f) => Some(f.iter().map(|i| un(*i)).collect()),
        _ => None,
    }
}
/// The same of a value, and of a composite, encoded as a list of fields.
fn e05_fields(c: &Corpus, fs: &[F], v: &V, prefixes: &[&[u8]]) -> Result<(), String> {
    let fields = || fs.iter().map(|f| Field { name: f.0.as_deref(), id: f.1 }).collect::<Vec<_>>();
    let comp = match &v.value {
        ValueDef::Composite(x) => Some(x),
        _ => None,
    };
    for by_value in [true, false] {
        let run = |pre: &[u8]| -> Option<(Vec<u8>, bool)> {
            step();
            let mut out = pre.to_vec();
            let (fl, o) = (fields(), &mut out);
            let ok = match by_value {
                true => v.encode_as_fields_to(&mut fl.into_iter(), &c.types, o).is_ok(),
                false => comp?.encode_as_fields_to(&mut fl.into_iter(), &c.types, o).is_ok(),
            };
            Some((out, ok))
        };
        let Some((fresh, ok)) = run(&[]) else { continue };
        for p in prefixes {
            let Some((out, ok2)) = run(p) else { continue };
            if !out.starts_with(p) {
                return Err(format!("as fields: bytes {} in the buffer became {}", hex(p), hex(&out)));
            }
            if ok != ok2 {
                return Err("as fields: outcome depends on what is in the buffer".into());
            }
            if ok && out[p.len()..] != fresh {
                return Err(format!("as fields: appended {} instead of {}", hex(&out[p.len()..]), hex(&fresh)));
            }
        }
    }
    Ok(())
}
pub fn e05(tier: Tier) -> Vec<Item> {
    let prefixes: &'static [&'static [u8]] = &[&[1], &[0xfe, 0xff, 4, 8, 0], &[9; 70]];
    let mut items = per_type(tier, move |c, id, depth, rec| {
        let n = rec.tier.pick([6, 4, 2, 2], [24, 12, 6, 5])[depth.min(3) as usize];
        let k = rec.tier.pick([2, 2, 1, 1], [3, 2, 2, 1])[depth.min(3) as usize];
        let mut vs: Vec<V> = vec![];
        for v in c.reg.domain(id, 1, 8, n) {
            if nodes_of(&v) <= 30 {
                vs.extend(relayered(&c.reg, &v, id, k).into_iter().map(|x| strip(&x.0)));
                vs.extend(mutants(&strip(&v)));
            } else {
                vs.push(strip(&v));
            }
        }
        let mut seen = std::collections::HashSet::new();
        for v in vs {
            if seen.insert(showv(&v)) {
                rec.case(
                    || desc(c, id, &v),
                    || {
                        let fresh = real_encode(c, id, &v);
                        if let Some(fs) = fields_of(c, id) {
                            e05_fields(c, &fs, &v, prefixes)?;
                        }
                        for p in prefixes {
                            let mut out = p.to_vec();
                            step();
                            let r = scale::encode_as_type(&v, id, &c.types, &mut out);
                            if !out.starts_with(p) {
                                return Err(format!("bytes {} in the buffer became {}", hex(p), hex(&out)));
                            }
                            match (&fresh, r) {
                                (Ok(b), Ok(())) if out[p.len()..] == b[..] => {}
                                (Ok(b), Ok(())) => return Err(format!("appended {} instead of {}", hex(&out[p.len()..]), hex(b))),
                                (Err(_), Err(_)) => {}
                                _ => return Err("outcome depends on what is in the buffer".into()),
                            }
                        }
                        Ok(if fresh.is_ok() { "appended" } else { "refused" })
                    },
                );
            }
        }
    });
    items.extend(big::values(tier, |c, id, v, e, rec| {
        rec.case(
            || desc(c, id, v),
            || {
                let pre = [0xfe, 0xff, 4];
                let mut out = pre.to_vec();
                for _ in 0..2 {
                    step();
                    scale::encode_as_type(v, id, &c.types, &mut out).map_err(|e| format!("refused: {e}"))?;
                }
                if out != [&pre[..], e, e].concat() {
                    return Err(format!("two encodings after {} give {}", hex(&pre), hex(&out)));
                }
                Ok("appended")
            },
        );
    }));
    // Histories: all sequences of up to three encodes into one buffer.
    items.push(item("histories", |rec: &mut Rec| {
        let mut r = Reg::new();
        let u8_ = r.p(P::U8);
        let s = r.p(P::Str);
        let l = r.seq(u8_);
        let wl = r.wrap(l);
        let wwl = r.wrap(wl);
        let st = r.st(&[("a", u8_), ("b", l)]);
        let e = r.opt(st);
        let b = r.add(T::Bits(Store::U16, true));
        let types = r.portable();
        let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
        // (value, type): first interpretation works, a later one works, none works
        let ops: Vec<(V, Id)> = vec![
            (w::u(7), u8_),
            (w::un(vec![w::u(8)]), u8_),
            (w::s("hey"), s),
            (w::un(vec![w::u(1), w::u(2)]), wwl),
            (w::un(vec![w::un(vec![w::un(vec![w::u(1), w::u(2)])])]), l),
            (w::un(vec![w::un(vec![w::un(vec![w::u(3)])])]), wwl),
            (w::un(vec![w::nm(vec![("b", w::un(vec![w::u(5)])), ("a", w::u(4))])]), st),
            (w::var("Some", w::cu(vec![w::nm(vec![("a", w::u(4)), ("b", w::un(vec![w::u(5), w::u(6)]))])])), e),
            (w::un(vec![w::un(vec![w::b(true), w::u(0)])]), b),
            (w::bits("1011"), b),
            (w::un(vec![w::u(1), w::s("x")]), l),
            (w::var("Some", w::cu(vec![w::u(1)])), e),
        ];
        let n = ops.len();
        let depth = rec.tier.pick(3, 4);
        let mut idx = vec![0usize; depth];
        for len in 1..=depth {
            for k in 0..n.pow(len as u32) {
                let mut x = k;
                for i in idx.iter_mut().take(len) {
                    *i = x % n;
                    x /= n;
                }
                let h = &idx[..len];
                rec.case(
                    || format!("history {h:?}: {}", h.iter().map(|i| desc(&c, ops[*i].1, &ops[*i].0)).collect::<Vec<_>>().join("; ")),
                    || {
                        let mut buf = vec![];
                        let mut failed = false;
                        for i in h {
                            let before = buf.clone();
                            let fresh = real_encode(&c, ops[*i].1, &ops[*i].0);
                            step();
                            let r = scale::encode_as_type(&ops[*i].0, ops[*i].1, &c.types, &mut buf);
                            match (fresh, r) {
                                (Ok(b), Ok(())) if buf == [before.clone(), b.clone()].concat() => {}
                                (Err(_), Err(_)) => {
                                    if !buf.starts_with(&before) {
                                        return Err("an unsuccessful encode changed earlier bytes".into());
                                    }
                                    buf = before;
                                    failed = true;
                                }
                                _ => return Err(format!("buffer {} became {}", hex(&before), hex(&buf))),
                            }
                        }
                        Ok(if failed { "history with refusals" } else { "history" })
                    },
                );
            }
        }
    }));
    items
}

// ------------------------------------------------------------------ E06
/// A resolver that counts how often it is asked, with a limit.
pub struct Counting<'a> {
    pub inner: &'a scale_info::PortableRegistry,
    pub count: std::cell::Cell<u64>,
    pub limit: u64,
}
impl TypeResolver for Counting<'_> {
    type TypeId = u32;
    type Error = String;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(&'this self, type_id: u32, visitor: V) -> Result<V::Value, String> {
        let n = self.count.get() + 1;
        self.count.set(n);
        if n > self.limit {
            panic!("more than {} type resolutions", self.limit);
        }
        TypeResolver::resolve_type(self.inner, type_id, visitor).map_err(|e| format!("{e:?}"))
    }
}
/// How many type resolutions encoding this value takes (None: more than the limit).
fn effort(c: &Corpus, id: Id, v: &V, limit: u64) -> (Option<u64>, bool) {
    step();
    let r = Counting { inner: &c.types, count: Default::default(), limit };
    let mut out = vec![];
    match no_panic(|| scale::encode_as_type(v, id, &r, &mut out).is_ok()) {
        Ok(ok) => (Some(r.count.get()), ok),
        Err(_) => (None, false),
    }
}
#[derive(Clone, Copy, Debug)]
enum Lvl {
    Un,
    Nm,
    Var,
    Alt,
    PairL,
    PairR,
    NPair,
    Deep2,
    VarNm,
}
fn grow(kind: Lvl, leaf: &V, d: usize) -> V {
    let mut x = leaf.clone();
    for k in 0..d {
        x = match kind {
            Lvl::Un => w::un(vec![x]),
            Lvl::Nm => w::nm(vec![("a", x)]),
            Lvl::Var => w::var("Some", w::cu(vec![x])),
            Lvl::Alt => {
                if k % 2 == 0 {
                    w::un(vec![x])
                } else {
                    w::nm(vec![("b", x)])
                }
            }
            Lvl::PairL => w::un(vec![x, w::u(1)]),
            Lvl::PairR => w::un(vec![w::u(1), x]),
            Lvl::NPair => w::nm(vec![("a", x), ("b", w::u(2))]),
            Lvl::Deep2 => {
                if k % 3 == 0 {
                    w::un(vec![w::u(1), x])
                } else {
                    w::un(vec![x])
                }
            }
            Lvl::VarNm => {
                if k % 2 == 0 {
                    w::var("C", w::cn(vec![("p", x), ("q", w::u(1))]))
                } else {
                    w::un(vec![x])
                }
            }
        };
    }
    x
}
pub fn e06(tier: Tier) -> Vec<Item> {
    let mut items = vec![];
    let kinds = [Lvl::Un, Lvl::Nm, Lvl::Var, Lvl::Alt, Lvl::PairL, Lvl::PairR, Lvl::NPair, Lvl::Deep2, Lvl::VarNm];
    // (1) every (non-recursive) type of the corpus against every tower
    items.extend(per_type(tier, move |c, id, depth, rec| {
        if recursive(&c.reg, id) || (depth >= 3 && rec.tier == Tier::Quick && id % 3 != 0) {
            return;
        }
        for kind in kinds {
            for leaf in [w::u(1), w::s("x"), w::un(vec![]), w::un(vec![w::u(1), w::u(2)])] {
                let d = rec.tier.pick(24, 40);
                rec.case(
                    || format!("{kind:?} towers of {} as type #{id} {}", showv(&leaf), c.reg.show(id)),
                    || effort_case(c, id, height(&c.reg, id), &|n| grow(kind, &leaf, n), d),
                );
            }
        }
    }));
    // (2) values that fit types of growing depth exactly: effort linear in the size
    items.push(item("matching towers", |rec: &mut Rec| {
        for base in 0..8 {
            rec.case(
                || format!("matching towers of kind {base}"),
                || {
                    let mut prev = 0;
                    for d in [8usize, 16, 32] {
                        let mut r = Reg::new();
                        let mut t = r.p(P::U8);
                        let mut v = w::u(1);
                        for k in 0..d {
                            let u8_ = r.p(P::U8);
                            let sel = if base == 7 { k % 7 } else { base };
                            (t, v) = match sel {
                                0 => (r.wrap(t), w::un(vec![v])),
                                1 => (r.nwrap("a", t), w::nm(vec![("a", v)])),
                                2 => (r.seq(t), w::un(vec![v])),
                                3 => (r.opt(t), w::var("Some", w::cu(vec![v]))),
                                4 => (r.st(&[("a", t), ("b", u8_)]), w::nm(vec![("a", v), ("b", w::u(1))])),
                                5 => (r.arr(1, t), w::un(vec![v])),
                                _ => (r.tup(&[u8_, t]), w::un(vec![w::u(1), v])),
                            };
                        }
                        let types = r.portable();
                        let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
                        let (n, ok) = effort(&c, t, &v, 200_000);
                        let n = n.ok_or_else(|| format!("more than 200000 type resolutions for a matching value of depth {d}"))?;
                        if !ok {
                            return Err(format!("matching value of depth {d} refused"));
                        }
                        if prev > 0 && n > prev * 6 + 500 {
                            return Err(format!("{prev} type resolutions at depth {}, {n} at depth {d}", d / 2));
                        }
                        prev = n;
                    }
                    Ok("matching tower")
                },
            );
        }
    }));
    // (3) wide values: effort linear in the number of items, fitting or not
    items.extend(per_type(tier, |c, id, depth, rec| {
        if depth > 1 || recursive(&c.reg, id) {
            return;
        }
        for (name, x) in [("number", w::u(1)), ("single", w::un(vec![w::u(1)])), ("named single", w::nm(vec![("a", w::un(vec![w::u(1)]))])), ("variant", w::var("Some", w::cu(vec![w::u(1)]))), ("text", w::s("x"))] {
            rec.case(
                || format!("wide lists of {name} as type #{id} {}", c.reg.show(id)),
                || {
                    let mk = |n: usize| w::un(vec![w::un(vec![x.clone(); n])]);
                    let (a, _) = effort(c, id, &mk(32), 500_000);
                    let (b, ok) = effort(c, id, &mk(64), 500_000);
                    match (a, b) {
                        (Some(a), Some(b)) if b <= a * 3 + 200 => Ok(if ok { "wide, accepted" } else { "wide, refused" }),
                        _ => Err(format!("32 items take {a:?} type resolutions, 64 take {b:?}")),
                    }
                },
            );
        }
    }));
    items
}
fn effort_case(c: &Corpus, id: Id, deg: u32, mk: &dyn Fn(usize) -> V, d: usize) -> Verdict {
    const LIMIT: u64 = 2_000_000;
    let (a, _) = effort(c, id, &mk(d / 2), LIMIT);
    let (b, ok) = effort(c, id, &mk(d), LIMIT);
    let a = a.ok_or_else(|| format!("more than {LIMIT} type resolutions at depth {}", d / 2))?;
    let b = b.ok_or_else(|| format!("{a} type resolutions at depth {}, more than {LIMIT} at depth {d}", d / 2))?;
    // Doubling the size multiplies the effort by at most 2^(degree), with one degree to spare.
    if b > (a << (deg + 2)) + 64 {
        return Err(format!("{a} type resolutions at depth {}, {b} at depth {d}", d / 2));
    }
    Ok(if ok { "tower accepted" } else { "tower refused" })
}
fn recursive(reg: &Reg, id: Id) -> bool {
    height_to(reg, id, 12).is_none()
}
fn height(reg: &Reg, id: Id) -> u32 {
    height_to(reg, id, 12).unwrap()
}
fn height_to(reg: &Reg, id: Id, max: u32) -> Option<u32> {
    if max == 0 {
        return None;
    }
    let kids: Vec<Id> = match reg.defs.get(id as usize) {
        Some(T::Struct(f)) => f.iter().map(|f| f.1).collect(),
        Some(T::Tuple(f)) => f.clone(),
        Some(T::Seq(i) | T::Array(_, i) | T::Compact(i)) => vec![*i],
        Some(T::Enum(v)) => v.iter().flat_map(|v| v.2.iter().map(|f| f.1)).collect(),
        _ => vec![],
    };
    let mut h = 0;
    for k in kids {
        h = h.max(height_to(reg, k, max - 1)? + 1);
    }
    Some(h)
}

// ------------------------------------------------------------------ E07
pub fn e07(tier: Tier) -> Vec<Item> {
    let mut items = vec![];
    for s in STORES {
        for msb in [false, true] {
            items.push(item(format!("bits {s:?} msb {msb}"), move |rec: &mut Rec| {
                let mut r = Reg::new();
                let t = r.add(T::Bits(s, msb));
                let wt = r.wrap(t);
                let nt = r.nwrap("a", t);
                let wwt = r.tup(&[wt]);
                let u8_ = r.p(P::U8);
                let st = r.st(&[("a", t), ("b", u8_)]);
                let sq = r.seq(t);
                let types = r.portable();
                let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
                let full = rec.tier.pick(8, 12);
                let mut pats: Vec<Vec<bool>> = vec![];
                for len in 0..=full {
                    for m in 0..(1u32 << len) {
                        pats.push((0..len).map(|i| m >> i & 1 == 1).collect());
                    }
                }
                for len in (full as usize + 1..=rec.tier.pick(70, 140)).chain([255, 256, 257, 511, 512, 513, 520, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537]) {
                    pats.push(vec![true; len]);
                    pats.push((0..len).map(|i| i % 3 == 0).collect());
                    pats.push((0..len).map(|i| i + 1 == len).collect());
                    pats.push((0..len).map(|i| i == 0).collect());
                    pats.push((0..len).map(|i| (i * i + i / 7) % 5 < 2).collect());
                }
                for bits in &pats {
                    let mut want = vec![];
                    enc_bits(s, msb, bits, &mut want);
                    let text: String = bits.iter().map(|b| if *b { '1' } else { '0' }).collect();
                    let native = w::bits(&text);
                    let styles: Vec<(&'static str, V)> = vec![
                        ("bits", native.clone()),
                        ("bools", w::un(bits.iter().map(|b| w::b(*b)).collect())),
                        ("unsigned", w::un(bits.iter().map(|b| w::u(*b as u128)).collect())),
                        ("signed", w::un(bits.iter().map(|b| w::i(*b as i128)).collect())),
                        ("mixed", w::un(bits.iter().enumerate().map(|(k, b)| if k % 3 == 0 { w::b(*b) } else if k % 3 == 1 { w::i(*b as i128) } else { w::u(*b as u128) }).collect())),
                        ("named", w::v(ValueDef::Composite(Composite::Named(bits.iter().enumerate().map(|(k, b)| (format!("f{k}"), w::b(*b))).collect())))),
                    ];
                    for (style, v) in &styles {
                        let x = || v.clone();
                        let forms: Vec<(&'static str, V, Id, Vec<u8>)> = vec![
                            ("", x(), t, want.clone()),
                            ("in one layer", w::un(vec![x()]), t, want.clone()),
                            ("in two layers", w::nm(vec![("q", w::un(vec![x()]))]), t, want.clone()),
                            ("for wrapped type", x(), wt, want.clone()),
                            ("for named wrapper", x(), nt, want.clone()),
                            ("for two layers", x(), wwt, want.clone()),
                            ("wrapped for wrapped type", w::un(vec![x()]), wt, want.clone()),
                            ("as a field", w::nm(vec![("b", w::u(9)), ("a", x())]), st, [want.clone(), vec![9]].concat()),
                            ("in a list", w::un(vec![x(), native.clone()]), sq, [vec![8], want.clone(), want.clone()].concat()),
                        ];
                        // A one-item or empty list is itself a layer that may be read otherwise.
                        for (form, v, id, want) in forms {
                            if bits.len() > 600 && !["", "as a field"].contains(&form) {
                                continue;
                            }
                            rec.case(|| format!("{style} <{text}> {form} as {}", c.reg.show(id)), || e07_case(&c, id, &v, &want, style));
                        }
                    }
                    // anything else in the list
                    if bits.len() <= 4 || ([33, 65, 257, 1025].contains(&bits.len()) && bits[0]) {
                        let bad = [w::u(2), w::u(u128::MAX), w::i(2), w::i(-1), w::i(i128::MIN), w::s("1"), w::ch('1'), w::un(vec![w::b(true)]), w::un(vec![]), w::bits("1"), w::var("true", w::cu(vec![])), w::p(Primitive::U256([0; 32])), w::u(1 << 64), w::i(1 << 64)];
                        for k in (0..=bits.len()).filter(|k| bits.len() < 70 || k % 32 < 2 || k + 2 > bits.len()) {
                            for x in &bad {
                                let mut l: Vec<V> = bits.iter().map(|b| w::b(*b)).collect();
                                l.insert(k, x.clone());
                                let v = w::un(l);
                                rec.case(
                                    || format!("list {} as {}", showv(&v), c.reg.show(t)),
                                    || match real_encode(&c, t, &v) {
                                        Err(_) => Ok("bad list refused"),
                                        Ok(b) => {
                                            // a one-item list may be a wrapper around bits
                                            let set = Readings::of(&c.reg, &v, t).unwrap_or_default();
                                            if set.contains(&b) {
                                                Ok("wrapper around bits")
                                            } else {
                                                Err(format!("encodes to {}", hex(&b)))
                                            }
                                        }
                                    },
                                );
                            }
                        }
                    }
                }
            }));
        }
    }
    let _ = tier;
    items
}
fn e07_case(c: &Corpus, id: Id, v: &V, want: &[u8], style: &str) -> Verdict {
    let got = real_encode(c, id, v).map_err(|e| format!("refused: {e}"))?;
    if got != want {
        return Err(format!("encodes to {} instead of {}", hex(&got), hex(want)));
    }
    step();
    let cur = &mut &*got;
    let back = scale::decode_as_type(cur, id, &c.types).map_err(|e| format!("own encoding refused: {e}"))?;
    let Dec::Done(m, n) = c.reg.decode(id, want) else { return Err("reference refuses".into()) };
    if back != m || n != want.len() || !cur.is_empty() {
        return Err(format!("comes back as {}", showv(&back)));
    }
    Ok(if style == "bits" { "from bits" } else { "from a list" })
}

// ------------------------------------------------------------------ E08
pub fn e08(tier: Tier) -> Vec<Item> {
    let mut items = per_type(tier, |c, id, depth, rec| {
        let fs: Vec<F> = match c.reg.get(id) {
            T::Struct(f) => f.clone(),
            T::Tuple(f) => f.iter().map(|i| un(*i)).collect(),
            _ => return,
        };
        let n = rec.tier.pick([8, 6, 3, 2], [30, 20, 8, 6])[depth.min(3) as usize];
        let mut vs: Vec<V> = vec![];
        for v in c.reg.domain(id, 1, 8, n) {
            if nodes_of(&v) > 40 {
                vs.push(strip(&v));
                continue;
            }
            vs.extend(reorderings(&v, 1).into_iter().map(|x| strip(&x)));
            vs.extend(mutants(&strip(&v)));
            vs.extend(relayered(&c.reg, &v, id, 1).into_iter().map(|x| strip(&x.0)));
        }
        if depth <= 1 {
            vs.extend(pool(1).into_iter().step_by(rec.tier.pick(5, 1)));
        }
        let mut seen = std::collections::HashSet::new();
        for v in vs {
            if seen.insert(showv(&v)) {
                rec.case(|| format!("fields of {}", desc(c, id, &v)), || e08_case(c, id, &fs, &v));
            }
        }
    });
    items.extend(big::values(tier, |c, id, v, _, rec| {
        let fs: Vec<F> = match c.reg.get(id) {
            T::Struct(f) => f.clone(),
            T::Tuple(f) => f.iter().map(|i| un(*i)).collect(),
            _ => return,
        };
        let v = strip(v);
        let all = rearranged(&v);
        for v in [v].into_iter().chain(all.into_iter().map(|x| x.1)) {
            rec.case(|| format!("fields of {}", desc(c, id, &v)), || e08_case(c, id, &fs, &v));
        }
    }));
    // field lists that are nobody's struct, in every arrangement
    for pool in [["a", "b", "c", "z"], ["0", "1", "2", "10"], ["_", "", " ", "é\""], ["A", "a", "r#a", "aa"], ["true", "None", "V", "v\"a\""]] {
      for tn in arrangements(&pool[..3], 3) {
        items.push(item(format!("arrangement {tn:?}"), move |rec: &mut Rec| {
            let mut r = Reg::new();
            let tys = [r.p(P::U8), r.p(P::U16), r.p(P::U32)];
            let fs: Vec<F> = tn.iter().zip(tys).map(|(n, t)| named(n, t)).collect();
            let id = r.add(T::Struct(fs.clone()));
            let uns: Vec<F> = tn.iter().zip(tys).map(|(_, t)| un(t)).collect();
            let uid = r.add(T::Struct(uns.clone()));
            let types = r.portable();
            let c = Corpus { reg: r, types, ids: vec![], odd: vec![] };
            for vn in arrangements(&pool, 4) {
                let num = |n: &str| w::u(3 + 17 * pool.iter().position(|p| *p == n).unwrap() as u128);
                let a = w::nm(vn.iter().map(|n| (*n, num(n))).collect());
                let b = w::un(vn.iter().map(|n| num(n)).collect());
                for v in [a, b] {
                    for (id, fs) in [(id, &fs), (uid, &uns)] {
                        rec.case(|| format!("fields of {}", desc(&c, id, &v)), || e08_case(&c, id, fs, &v));
                    }
                }
            }
        }));
      }
    }
    items
}
fn e08_case(c: &Corpus, id: Id, fs: &[F], v: &V) -> Verdict {
    let fields = || fs.iter().map(|f| Field { name: f.0.as_deref(), id: f.1 }).collect::<Vec<_>>();
    let pre = vec![0xEE, 1];
    let run = |what: &dyn Fn(&mut dyn scale_type_resolver::FieldIter<'_, u32>, &mut Vec<u8>) -> bool| -> Result<Option<Vec<u8>>, String> {
        step();
        let mut out = pre.clone();
        let fl = fields();
        let ok = what(&mut fl.into_iter(), &mut out);
        if !out.starts_with(&pre) {
            return Err("earlier bytes of the buffer changed".into());
        }
        Ok(ok.then(|| out[2..].to_vec()))
    };
    let via_value = run(&|f, o| v.encode_as_fields_to(f, &c.types, o).is_ok())?;
    let via_value2 = {
        step();
        v.encode_as_fields(&mut fields().into_iter(), &c.types).ok()
    };
    if via_value != via_value2 {
        return Err("encode_as_fields and encode_as_fields_to differ".into());
    }
    let ValueDef::Composite(comp) = &v.value else {
        return if via_value.is_none() { Ok("not a composite") } else { Err("a value that is no composite was accepted".into()) };
    };
    let via_comp = run(&|f, o| comp.encode_as_fields_to(f, &c.types, o).is_ok())?;
    if via_comp != via_value {
        return Err(format!("composite gives {via_comp:?}, the value holding it {via_value:?}"));
    }
    let as_struct = real_encode(c, id, v).ok();
    let single = comp.len() == 1 || fs.len() == 1;
    match (&via_value, &as_struct) {
        (Some(a), Some(b)) if a == b => Ok("same bytes"),
        (None, None) => Ok("both refuse"),
        (None, Some(_)) if single => Ok("struct accepts by changing layers"),
        (a, b) => Err(format!("as fields {:?}, as struct {:?}", a.as_ref().map(|x| hex(x)), b.as_ref().map(|x| hex(x)))),
    }
    .and_then(|l| {
        // and independently of the struct encoder:
        if let (Some(set), Some(b)) = (Readings::fields(&c.reg, comp, fs), &via_value) {
            if !set.contains(b) {
                return Err(format!("{} is not a reading of these fields", hex(b)));
            }
        }
        Ok(l)
    })
}
