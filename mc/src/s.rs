//! Text properties S01-S08: reference printer, reference parser, and the checks around them.
use crate::engine::*;
use crate::tys::{hex, showv};
use crate::vals::*;
use scale_value::stringify::{custom_formatters, custom_parsers, from_str, from_str_custom, to_string, to_writer, to_writer_custom, ParseBitSequenceError, ParseCharError, ParseComplexError, ParseError, ParseErrorKind, ParseNumberError, ParseStringError};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use std::cell::RefCell;
use std::fmt::Debug;

// ------------------------------------------------------------------ reference printer
#[derive(Clone, Debug)]
pub struct Style {
    pub pretty: bool,
    pub compact: bool,
    pub context: bool,
    pub hex: bool,
    pub indent: &'static str,
    pub lead: &'static str,
}
impl Default for Style {
    fn default() -> Self {
        Style { pretty: false, compact: false, context: false, hex: false, indent: "  ", lead: "" }
    }
}

type Custom<'a, C> = dyn FnMut(&Value<C>) -> Option<String> + 'a;

pub fn reference_print<C: Debug>(v: &Value<C>, st: &Style) -> String {
    let mut o = String::new();
    Rp { st, custom: &mut |_| None }.value(v, 0, &mut o);
    o
}
fn reference_print_with<C: Debug>(v: &Value<C>, st: &Style, custom: &mut Custom<C>) -> String {
    let mut o = String::new();
    Rp { st, custom }.value(v, 0, &mut o);
    o
}
struct Rp<'a, 'b, C> {
    st: &'a Style,
    custom: &'a mut Custom<'b, C>,
}
fn ident(s: &str) -> bool {
    s.chars().enumerate().all(|(i, c)| c.is_alphabetic() || (i > 0 && (c.is_alphanumeric() || c == '_'))) && !s.is_empty()
}
fn esc(c: char) -> String {
    match c {
        '\n' => "\\n".into(),
        '\t' => "\\t".into(),
        '\r' => "\\r".into(),
        '\0' => "\\0".into(),
        '"' => "\\\"".into(),
        '\'' => "\\'".into(),
        '\\' => "\\\\".into(),
        c => c.to_string(),
    }
}
fn quoted(s: &str) -> String {
    format!("\"{}\"", s.chars().map(esc).collect::<String>())
}
pub fn bytes_list<C>(v: &Value<C>) -> Option<Vec<u8>> {
    let ValueDef::Composite(Composite::Unnamed(xs)) = &v.value else { return None };
    if xs.is_empty() {
        return None;
    }
    xs.iter().map(|x| if let ValueDef::Primitive(Primitive::U128(n)) = &x.value { u8::try_from(*n).ok() } else { None }).collect()
}
fn hex_upper(b: &[u8]) -> String {
    format!("0x{}", b.iter().map(|b| format!("{b:02X}")).collect::<String>())
}
impl<C: Debug> Rp<'_, '_, C> {
    fn nl(&self, depth: usize, o: &mut String) {
        o.push('\n');
        o.push_str(self.st.lead);
        for _ in 0..depth {
            o.push_str(self.st.indent);
        }
    }
    fn value(&mut self, v: &Value<C>, depth: usize, o: &mut String) {
        if self.st.context {
            *o += &format!("<{:?}> ", v.context);
        }
        if self.st.hex {
            if let Some(b) = bytes_list(v) {
                *o += &hex_upper(&b);
                return;
            }
        }
        if let Some(t) = (self.custom)(v) {
            *o += &t;
            return;
        }
        match &v.value {
            ValueDef::Composite(c) => self.comp(c, depth, o),
            ValueDef::Variant(w) => {
                if ident(&w.name) && w.name != "true" && w.name != "false" {
                    *o += &w.name;
                } else {
                    *o += &format!("v{}", quoted(&w.name));
                }
                if !self.st.compact {
                    o.push(' ');
                }
                self.comp(&w.values, depth, o)
            }
            ValueDef::BitSequence(b) => {
                o.push('<');
                b.iter().for_each(|x| o.push(if x { '1' } else { '0' }));
                o.push('>')
            }
            ValueDef::Primitive(p) => match p {
                Primitive::Bool(b) => *o += if *b { "true" } else { "false" },
                Primitive::Char(c) => *o += &format!("'{}'", esc(*c)),
                Primitive::String(s) => *o += &quoted(s),
                Primitive::U128(n) => *o += &n.to_string(),
                Primitive::I128(n) => *o += &n.to_string(),
                Primitive::U256(_) | Primitive::I256(_) => *o += "?",
            },
        }
    }
    fn comp(&mut self, c: &Composite<C>, depth: usize, o: &mut String) {
        let (open, close) = if matches!(c, Composite::Named(_)) { ('{', '}') } else { ('(', ')') };
        o.push(open);
        let n = c.len();
        if n > 0 {
            for k in 0..n {
                if k > 0 {
                    o.push(',');
                }
                if self.st.pretty {
                    self.nl(depth + 1, o);
                } else if !self.st.compact && (k > 0 || open == '{') {
                    o.push(' ');
                }
                match c {
                    Composite::Named(xs) => {
                        let name = &xs[k].0;
                        *o += &if ident(name) { name.clone() } else { quoted(name) };
                        o.push(':');
                        if !self.st.compact {
                            o.push(' ');
                        }
                        self.value(&xs[k].1, depth + 1, o);
                    }
                    Composite::Unnamed(xs) => self.value(&xs[k], depth + 1, o),
                }
            }
            if self.st.pretty {
                self.nl(depth, o);
            } else if !self.st.compact && open == '{' {
                o.push(' ');
            }
        }
        o.push(close);
    }
}

const INDENTS: [(&str, &str); 6] = [("  ", ""), ("", ""), ("\t", "    "), (" ", "\t"), ("\u{3000}", "\u{a0}"), ("\r\n", "\n")];

/// Every print style with whitespace indentation: name, real output, description for the reference.
fn real_styles(v: &V) -> Vec<(String, Style, Result<String, String>)> {
    let mut out = vec![];
    let mut put = |n: String, st: Style, f: &mut dyn FnMut(&mut String) -> std::fmt::Result| {
        step();
        let mut o = String::new();
        let r = no_panic(std::panic::AssertUnwindSafe(|| f(&mut o)));
        let r = match r {
            Ok(Ok(())) => Ok(o),
            Ok(Err(_)) => Err("printing failed".to_string()),
            Err(e) => Err(e),
        };
        out.push((n, st, r));
    };
    let d = Style::default;
    let pretty = || Style { pretty: true, ..d() };
    use std::fmt::Write;
    put("to_writer".into(), d(), &mut |o| to_writer(v, o));
    put("to_string".into(), d(), &mut |o| {
        *o = to_string(v);
        Ok(())
    });
    put("{}".into(), d(), &mut |o| write!(o, "{v}"));
    put("{:#}".into(), pretty(), &mut |o| write!(o, "{v:#}"));
    put("{} of the definition".into(), d(), &mut |o| write!(o, "{}", v.value));
    put("{:#} of the definition".into(), pretty(), &mut |o| write!(o, "{:#}", v.value));
    match &v.value {
        ValueDef::Composite(c) => {
            put("{} of the composite".into(), d(), &mut |o| write!(o, "{c}"));
            put("{:#} of the composite".into(), pretty(), &mut |o| write!(o, "{c:#}"));
        }
        ValueDef::Variant(c) => {
            put("{} of the variant".into(), d(), &mut |o| write!(o, "{c}"));
            put("{:#} of the variant".into(), pretty(), &mut |o| write!(o, "{c:#}"));
        }
        ValueDef::Primitive(c) => {
            put("{} of the primitive".into(), d(), &mut |o| write!(o, "{c}"));
            put("{:#} of the primitive".into(), pretty(), &mut |o| write!(o, "{c:#}"));
        }
        _ => {}
    }
    put("custom default".into(), d(), &mut |o| to_writer_custom().write(v, o));
    put("compact".into(), Style { compact: true, ..d() }, &mut |o| to_writer_custom().compact().write(v, o));
    for (ind, lead) in INDENTS {
        put(format!("pretty indent {ind:?} lead {lead:?}"), Style { pretty: true, indent: ind, lead, ..d() }, &mut |o| to_writer_custom().pretty().indent_by(ind).leading_indent(lead).write(v, o));
    }
    put("indent without pretty".into(), d(), &mut |o| to_writer_custom().indent_by("####").leading_indent("@@").write(v, o));
    put("compact with indent".into(), Style { compact: true, ..d() }, &mut |o| to_writer_custom().indent_by("####").leading_indent("@@").compact().write(v, o));
    out
}

fn no_sign(v: &V) -> V {
    let c = |c: &Composite<()>| match c {
        Composite::Named(x) => Composite::Named(x.iter().map(|(n, x)| (n.clone(), no_sign(x))).collect()),
        Composite::Unnamed(x) => Composite::Unnamed(x.iter().map(no_sign).collect()),
    };
    match &v.value {
        ValueDef::Primitive(Primitive::I128(n)) if *n >= 0 => u(*n as u128),
        ValueDef::Composite(x) => crate::vals::v(ValueDef::Composite(c(x))),
        ValueDef::Variant(x) => crate::vals::v(ValueDef::Variant(Variant { name: x.name.clone(), values: c(&x.values) })),
        _ => v.clone(),
    }
}

/// The values whose printed form is examined.
pub fn printable(tier: Tier) -> Vec<V> {
    let sc = scalars(tier);
    let mut out = sc.clone();
    for x in &sc {
        out.extend(frames(x, "a").into_iter().take(tier.pick(3, 11)));
    }
    let inner: Vec<V> = few().into_iter().chain([un(vec![]), nm(vec![]), un(vec![u(1), u(2)]), nm(vec![("k", b(true))]), var("W", cu(vec![])), var("false", cn(vec![("v", u(1))]))]).collect();
    for n in NAMES {
        for x in &inner {
            out.extend(frames(x, n));
        }
        for m in NAMES {
            out.push(nm(vec![(n, u(1)), (m, b(false))]));
            out.push(var(n, cn(vec![(m, u(1))])));
        }
        out.push(var(n, cu(vec![])));
        out.push(var(n, cn(vec![])));
    }
    out.extend(trees(&tier.pick(few()[..3].to_vec(), few()[..5].to_vec()), 1, 3, &["a", "b c", "true"], &["V", "true"]));
    out.extend(trees(&[u(7), s("q")], 2, 2, &["a", "b"], &["V"]));
    if tier == Tier::Thorough {
        out.extend(trees(&[u(7), b(true), s("q")], 2, 2, &["a", "é!"], &["V", "falsey"]));
        out.extend(trees(&[u(7)], 3, 1, &["a"], &["V", "", "true"]));
    } else {
        out.extend(trees(&[i(-7)], 3, 1, &["a"], &["V", "x y"]));
    }
    // long and deep ones
    let mut deep = u(5);
    for k in 0..60 {
        deep = match k % 4 {
            0 => un(vec![deep]),
            1 => nm(vec![("n", deep), ("m", b(true))]),
            2 => var("D", cu(vec![u(1), deep])),
            _ => var("E", cn(vec![("x", deep)])),
        };
    }
    out.push(deep);
    out.push(un((0..300).map(|n| u(n as u128)).collect()));
    out
}

// ------------------------------------------------------------------ S01
pub fn s01(tier: Tier) -> Vec<Item> {
    let mut items = spread("values", 24, printable, |v, rec| rec.case(|| showv(v), || s01_case(v)));
    items.extend(sized(tier, |v, rec| rec.case(|| showv(v), || s01_case(v))));
    items
}
fn s01_case(v: &V) -> Verdict {
    let want = no_sign(v);
    for (name, _, r) in real_styles(v) {
        let text = r.map_err(|e| format!("{name}: {e}"))?;
        step();
        let (r, rest) = from_str(&text);
        match r {
            Err(e) => return Err(format!("{name} prints {text:?} which does not parse: {e}")),
            Ok(x) if x != want || showv(&x) != showv(&want) => return Err(format!("{name} prints {text:?} which parses to {}", showv(&x))),
            Ok(_) if !rest.is_empty() => return Err(format!("{name} prints {text:?} of which {rest:?} is not consumed")),
            Ok(_) => {}
        }
    }
    Ok(match &v.value {
        ValueDef::Composite(c) if c.is_empty() => "empty composite",
        ValueDef::Composite(_) => "composite",
        ValueDef::Variant(_) => "variant",
        ValueDef::BitSequence(_) => "bits",
        ValueDef::Primitive(_) => "primitive",
    })
}
/// The family of sizes, as values, and names of every kind and length.
pub fn sized(tier: Tier, f: impl Fn(&V, &mut Rec) + Send + Sync + Copy + 'static) -> Vec<Item> {
    let mut items = sized_values(tier, f);
    items.extend(spread("sizes: names", 8, names_of_every_kind, move |n: &String, rec| {
        for v in [var(n, cu(vec![])), var(n, cn(vec![(n, b(true))])), nm(vec![(n, u(1)), ("b", var(n, cu(vec![ch('a')])))])] {
            f(&v, rec);
        }
    }));
    items
}
/// The same without the names.
pub fn sized_values(tier: Tier, f: impl Fn(&V, &mut Rec) + Send + Sync + Copy + 'static) -> Vec<Item> {
    let mut items = crate::big::values(tier, move |_, _, v, e, rec| {
        if e.len() < rec.tier.pick(1500, 20_000) && crate::d::nodes(v) < rec.tier.pick(400, 4000) {
            f(&strip(v), rec);
        }
    });
    items.push(item("sizes: numbers", move |rec: &mut Rec| {
        let (mut us, mut is) = boundary();
        for k in 0..39 {
            let p = 10u128.pow(k);
            us.extend([p - 1, p, p + 1, p * 2, p / 9]);
            is.extend([p as i128, -(p as i128), 1 - p as i128, -1 - p as i128]);
        }
        for n in us {
            f(&u(n), rec);
            f(&un(vec![u(n), nm(vec![("a", u(n)), ("b", var("V", cu(vec![u(n)])))])]), rec);
        }
        for n in is {
            f(&i(n), rec);
            f(&un(vec![i(n), nm(vec![("a", i(n)), ("b", var("V", cu(vec![i(n)])))])]), rec);
        }
    }));
    items.push(item("sizes: towers", move |rec: &mut Rec| {
        for d in [60usize, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300].into_iter().chain(rec.tier.pick(vec![], vec![511, 512, 513, 1023, 1024, 1025])) {
            for k in 0..6 {
                let mut x = u(1);
                for l in 0..d {
                    x = match if k == 5 { (l * 7 + l / 5) % 5 } else { k } {
                        0 => un(vec![x]),
                        1 => nm(vec![("a", x)]),
                        2 => var("V", cu(vec![x])),
                        3 => var("V", cn(vec![("a", x)])),
                        _ => un(vec![b(true), x]),
                    };
                }
                f(&x, rec);
            }
        }
    }));
    items.push(item("sizes: one long one of each", move |rec: &mut Rec| {
        for n in [5000usize, 70_000] {
            f(&un((0..n).map(|k| u(k as u128 % 7)).collect()), rec);
            f(&bits(&"10110".repeat(n / 5)), rec);
            f(&s(&"ab\"é".repeat(n / 4)), rec);
            f(&var(&"Name".repeat(n / 4), cu(vec![u(1)])), rec);
            f(&nm(vec![(&"name ".repeat(n / 5), u(1)), ("b", u(2))]), rec);
        }
    }));
    items
}
/// Whether the character is the first or last of a run of characters of the same kind.
pub fn at_class_edge(c: char) -> bool {
    let kind = |x: u32| char::from_u32(x).map(|c| (c.is_alphabetic(), c.is_alphanumeric(), c.is_whitespace(), c.is_control(), c.len_utf8()));
    let x = c as u32;
    x == 0xfeff || kind(x) != kind(x + 1) || x == 0 || kind(x) != kind(x - 1)
}
/// Names: every character alone, at the start, in the middle and at the end; every length up to a
/// bound; all words of up to three characters over a set.
pub fn names_of_every_kind(tier: Tier) -> Vec<String> {
    let mut out: Vec<String> = crate::e::LOOK_ALIKES.iter().map(|x| x.to_string()).collect();
    for c in (0..0x110000).filter_map(char::from_u32) {
        if tier == Tier::Quick && c as u32 >= 0x3000 && !at_class_edge(c) {
            continue;
        }
        if tier == Tier::Quick && c as u32 > 0x600 && c as u32 % 5 != 0 && !c.is_whitespace() && !at_class_edge(c) {
            continue;
        }
        out.extend([format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}a")]);
    }
    for n in 0..tier.pick(140usize, 600) {
        out.push("n".repeat(n));
        out.push("é".repeat(n));
        out.push("n\"".repeat(n / 2));
    }
    let set: Vec<char> = "aZ_0v\"\\<>tT- .:é'".chars().collect();
    for x in &set {
        for y in &set {
            out.push(format!("{x}{y}"));
            for z in &set {
                out.push(format!("{x}{y}{z}"));
            }
        }
    }
    for t in ["true", "false", "v", "null", "Some", "0x", "\\n", "\\u{61}"] {
        for c in &set {
            out.extend([format!("{t}{c}"), format!("{c}{t}"), format!("{t}{t}{c}")]);
        }
        for k in 0..t.len() {
            if t.is_char_boundary(k) {
                out.push(t[..k].to_string());
            }
        }
    }
    // words around the ones which mean something to someone
    for w in [crate::j::MARK, "name", "values", "value", "context", "None", "Some", "Ok", "Err", "Named", "Unnamed", "Composite", "Variant", "BitSequence", "Primitive"] {
        for c in &set {
            out.extend([format!("{w}{c}"), format!("{c}{w}")]);
        }
        out.extend([w.to_uppercase(), w.to_lowercase(), format!("{w}{w}"), w[1..].to_string(), w[..w.len() - 1].to_string(), format!("{w}2"), w.replace("__", "_"), w.trim_matches('_').to_string()]);
        if w != crate::j::MARK {
            out.push(w.to_string());
        }
    }
    out.retain(|x| x != crate::j::MARK);
    out.sort();
    out.dedup();
    out
}

// ------------------------------------------------------------------ S02
fn s02_case(v: &V) -> Verdict {
    for (name, st, r) in real_styles(v) {
        let text = r.map_err(|e| format!("{name}: {e}"))?;
        let want = reference_print(v, &st);
        if text != want {
            return Err(format!("{name} prints\n{text}\ninstead of\n{want}"));
        }
    }
    Ok("all styles")
}
pub fn s02(tier: Tier) -> Vec<Item> {
    let mut items = spread("values", 24, printable, |v, rec| rec.case(|| showv(v), || s02_case(v)));
    items.extend(sized(tier, |v, rec| rec.case(|| showv(v), || s02_case(v))));
    // indentation that is not whitespace, and builder calls in other orders
    items.extend(spread(
        "odd indentation",
        4,
        |t| trees(&few()[..t.pick(2, 4)], 2, 1, &["a", "b"], &["V"]),
        |v, rec| {
            for (ind, lead) in [("**", ""), ("-", "| "), ("", "> "), ("é", "日")] {
                rec.case(
                    || format!("{} indent {ind:?} lead {lead:?}", showv(v)),
                    || {
                        let st = Style { pretty: true, indent: ind, lead, ..Style::default() };
                        let want = reference_print(v, &st);
                        steps(2);
                        let mut a = String::new();
                        to_writer_custom().leading_indent(lead).indent_by(ind).compact().pretty().write(v, &mut a).map_err(|_| "failed")?;
                        let mut b2 = String::new();
                        {
                            let w = to_writer_custom().pretty().indent_by(ind.to_string()).leading_indent(lead.to_string());
                            w.write(v, &mut b2).map_err(|_| "failed")?;
                        }
                        if a != want || b2 != want {
                            return Err(format!("printed\n{a}\nand\n{b2}\ninstead of\n{want}"));
                        }
                        Ok("odd indentation")
                    },
                );
            }
        },
    ));
    // every history of builder calls: the last word on each option counts; a builder prints any
    // number of values.
    const CALLS: usize = 7;
    for first in 0..CALLS {
        items.push(item(format!("builder calls {first}"), move |rec: &mut Rec| {
            let vs = trees(&[u(1), s("é")], 2, 1, &["a"], &["V"]);
            let max: u32 = rec.tier.pick(4, 6);
            for len in 1..=max {
                for k in 0..(CALLS as u64).pow(len - 1) {
                    let mut calls = vec![first];
                    let mut x = k;
                    for _ in 1..len {
                        calls.push((x % CALLS as u64) as usize);
                        x /= CALLS as u64;
                    }
                    let vs = &vs;
                    rec.case(
                        || format!("builder calls {calls:?}"),
                        || {
                            let mut st = Style::default();
                            let mut b = to_writer_custom::<(), Sink>();
                            for c in &calls {
                                b = match c {
                                    0 => b.compact(),
                                    1 => b.pretty(),
                                    2 => b.indent_by("\t"),
                                    3 => b.indent_by(String::new()),
                                    4 => b.indent_by("    "),
                                    5 => b.leading_indent("> "),
                                    _ => b.leading_indent(""),
                                };
                                match c {
                                    0 => (st.compact, st.pretty) = (true, false),
                                    1 => (st.compact, st.pretty) = (false, true),
                                    2 => st.indent = "\t",
                                    3 => st.indent = "",
                                    4 => st.indent = "    ",
                                    5 => st.lead = "> ",
                                    _ => st.lead = "",
                                }
                            }
                            for (k, v) in vs.iter().enumerate() {
                                if k % 7 != calls.len() % 7 {
                                    continue;
                                }
                                step();
                                let sink = Sink::new(usize::MAX, true);
                                b.write(v, sink.clone()).map_err(|_| "printing failed")?;
                                let want = reference_print(v, &st);
                                if sink.text() != want {
                                    return Err(format!("printed\n{}\ninstead of\n{want}", sink.text()));
                                }
                            }
                            Ok("builder history")
                        },
                    );
                }
            }
        }));
    }
    items
}

// ------------------------------------------------------------------ reference parser
#[derive(Debug, Clone, PartialEq)]
enum Fail {
    Syntax,
    Custom { start: usize, end: Option<usize>, msg: String },
}
/// A model of a custom parser: (text from here on) -> answer and how many bytes it takes.
enum Answer {
    Take(V, usize),
    Fail(usize, Option<usize>, String),
}
type ModelParser<'a> = &'a dyn Fn(&str) -> Option<Answer>;
struct Rd<'a> {
    text: &'a str,
    at: usize,
    customs: &'a [ModelParser<'a>],
    /// (parser, position) in the order in which they are asked
    asked: Vec<(usize, usize)>,
}
impl<'a> Rd<'a> {
    fn rest(&self) -> &'a str {
        &self.text[self.at..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.at += c.len_utf8();
            true
        } else {
            false
        }
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.at += c.len_utf8();
        Some(c)
    }
    fn ws(&mut self) {
        while self.peek().is_some_and(char::is_whitespace) {
            self.next();
        }
    }
    fn value(&mut self) -> Result<V, Fail> {
        let here = self.at;
        for (i, p) in self.customs.iter().enumerate() {
            self.asked.push((i, here));
            match p(self.rest()) {
                None => {}
                Some(Answer::Take(v, n)) => {
                    self.at += n;
                    return Ok(v);
                }
                Some(Answer::Fail(s, e, msg)) => return Err(Fail::Custom { start: here + s, end: e.map(|e| here + e), msg }),
            }
        }
        let Some(c) = self.peek() else { return Err(Fail::Syntax) };
        match c {
            '\'' => {
                self.next();
                let c = self.next().ok_or(Fail::Syntax)?;
                let c = if c == '\\' { self.unescape()? } else { c };
                if !self.eat('\'') {
                    return Err(Fail::Syntax);
                }
                Ok(ch(c))
            }
            '"' => self.string().map(|x| s(&x)),
            '+' | '-' | '0'..='9' => self.number(),
            '{' => self.named().map(|c| crate::vals::v(ValueDef::Composite(c))),
            '(' => self.unnamed().map(|c| crate::vals::v(ValueDef::Composite(c))),
            '<' => {
                self.next();
                let mut b = BitSequence::new();
                loop {
                    match self.next() {
                        Some('0') => b.push(false),
                        Some('1') => b.push(true),
                        Some('>') => return Ok(crate::vals::v(ValueDef::BitSequence(b))),
                        _ => return Err(Fail::Syntax),
                    }
                }
            }
            c if c.is_alphabetic() => {
                let word: String = self.word();
                if word == "true" || word == "false" {
                    self.at += word.len();
                    return Ok(b(word == "true"));
                }
                let mut name = word;
                self.at += name.len();
                if name == "v" && self.peek() == Some('"') {
                    // v"any name": only if the quoted part is well formed is it a name
                    if let Ok(n) = self.string() {
                        name = n;
                    } else {
                        return Err(Fail::Syntax);
                    }
                }
                self.ws();
                let values = match self.peek() {
                    Some('{') => self.named()?,
                    Some('(') => self.unnamed()?,
                    _ => return Err(Fail::Syntax),
                };
                Ok(crate::vals::v(ValueDef::Variant(Variant { name, values })))
            }
            _ => Err(Fail::Syntax),
        }
    }
    /// The identifier at this position (starts alphabetic, goes on alphanumeric or underscore).
    fn word(&self) -> String {
        let mut o = String::new();
        for (i, c) in self.rest().chars().enumerate() {
            if c.is_alphabetic() || (i > 0 && (c.is_alphanumeric() || c == '_')) {
                o.push(c);
            } else {
                break;
            }
        }
        o
    }
    fn unescape(&mut self) -> Result<char, Fail> {
        Ok(match self.next() {
            Some('n') => '\n',
            Some('t') => '\t',
            Some('r') => '\r',
            Some('0') => '\0',
            Some(c @ ('"' | '\'' | '\\')) => c,
            _ => return Err(Fail::Syntax),
        })
    }
    fn string(&mut self) -> Result<String, Fail> {
        if !self.eat('"') {
            return Err(Fail::Syntax);
        }
        let mut o = String::new();
        loop {
            match self.next() {
                None => return Err(Fail::Syntax),
                Some('"') => return Ok(o),
                Some('\\') => o.push(self.unescape()?),
                Some(c) => o.push(c),
            }
        }
    }
    fn number(&mut self) -> Result<V, Fail> {
        let neg = self.peek() == Some('-');
        if neg || self.peek() == Some('+') {
            self.next();
        }
        if !self.peek().is_some_and(|c| c.is_ascii_digit()) {
            return Err(Fail::Syntax);
        }
        // magnitude, None once it exceeds u128
        let mut m: Option<u128> = Some(0);
        while let Some(c) = self.peek() {
            if let Some(d) = c.to_digit(10) {
                m = m.and_then(|m| m.checked_mul(10)).and_then(|m| m.checked_add(d as u128));
            } else if c != '_' {
                break;
            }
            self.next();
        }
        let m = m.ok_or(Fail::Syntax)?;
        if !neg {
            return Ok(u(m));
        }
        let min = 1u128 << 127;
        if m > min {
            return Err(Fail::Syntax);
        }
        Ok(i((m as i128).wrapping_neg()))
    }
    fn named(&mut self) -> Result<Composite<()>, Fail> {
        self.next();
        self.ws();
        let mut out = vec![];
        if self.eat('}') {
            return Ok(Composite::Named(out));
        }
        loop {
            let name = if self.peek() == Some('"') {
                self.string()?
            } else {
                let w = self.word();
                if w.is_empty() {
                    return Err(Fail::Syntax);
                }
                self.at += w.len();
                w
            };
            self.ws();
            if !self.eat(':') {
                return Err(Fail::Syntax);
            }
            self.ws();
            out.push((name, self.value()?));
            self.ws();
            if self.eat('}') {
                return Ok(Composite::Named(out));
            }
            if !self.eat(',') {
                return Err(Fail::Syntax);
            }
            self.ws();
        }
    }
    fn unnamed(&mut self) -> Result<Composite<()>, Fail> {
        self.next();
        self.ws();
        let mut out = vec![];
        if self.eat(')') {
            return Ok(Composite::Unnamed(out));
        }
        loop {
            out.push(self.value()?);
            self.ws();
            if self.eat(')') {
                return Ok(Composite::Unnamed(out));
            }
            if !self.eat(',') {
                return Err(Fail::Syntax);
            }
            self.ws();
        }
    }
}
fn reference_parse(t: &str) -> Result<(V, usize), Fail> {
    let mut r = Rd { text: t, at: 0, customs: &[], asked: vec![] };
    let v = r.value()?;
    Ok((v, r.at))
}

// ------------------------------------------------------------------ texts
const CHARS: [char; 26] = ['(', ')', '{', '}', ',', ':', ' ', 'a', '1', '"', '\'', '\\', '<', '>', '-', '+', '_', 'v', 'é', '0', 'n', '\n', 't', '²', '@', '🦀'];
const TOKENS: [&str; 30] = [
    "(", ")", "{", "}", ",", ":", " ", "a", "1", "true", "false", "\"s\"", "'c'", "<01>", "v\"b\"", "-2", "+3", "_", "é", "V", "v", "\\", "\"", "'", "\t\n", "<", "0x1f", "1_0", "-", "'\\n'",
];

/// All texts over a character set up to a length, split into items by their first two parts.
fn sequences(name: &str, parts: Vec<String>, max: usize, f: impl Fn(&str, &mut Rec) + Send + Sync + Clone + 'static) -> Vec<Item> {
    let parts = std::sync::Arc::new(parts);
    let mut out = vec![];
    {
        let parts = parts.clone();
        let f = f.clone();
        out.push(item(format!("{name}: up to 1 part"), move |rec: &mut Rec| {
            f("", rec);
            for p in parts.iter() {
                f(p, rec);
            }
        }));
    }
    for a in 0..parts.len() {
        let parts = parts.clone();
        let f = f.clone();
        out.push(item(format!("{name}: first part {:?}", parts[a]), move |rec: &mut Rec| {
            let mut idx: Vec<usize> = vec![];
            let mut text = String::new();
            fn go(parts: &[String], left: usize, text: &mut String, idx: &mut Vec<usize>, f: &dyn Fn(&str, &mut Rec), rec: &mut Rec) {
                if left == 0 {
                    return;
                }
                for p in parts {
                    let n = text.len();
                    text.push_str(p);
                    f(text, rec);
                    go(parts, left - 1, text, idx, f, rec);
                    text.truncate(n);
                }
            }
            text.push_str(&parts[a]);
            go(&parts, max - 1, &mut text, &mut idx, &f, rec);
        }));
    }
    out
}

/// Valid texts in varied spelling, from which others are derived by small edits.
fn base_texts(tier: Tier) -> Vec<String> {
    let mut vs = few();
    vs.extend(containers(&few()[..2], 2, &["a", "b c"], &["V", "", "true", "truer"]));
    vs.extend(trees(&[u(10)], 2, 1, &["f"], &["é_1"]));
    vs.push(nm(vec![("x", un(vec![i(-12), nm(vec![])])), ("y", var("A", cn(vec![("z", ch('\\'))])))]));
    vs.push(un(vec![var("falsey", cu(vec![])), s("\"\\é\n"), bits("0110")]));
    let mut out = vec![];
    for v in &vs {
        out.push(reference_print(v, &Style::default()));
        out.push(reference_print(v, &Style { compact: true, ..Style::default() }));
        if tier == Tier::Thorough {
            out.push(reference_print(v, &Style { pretty: true, indent: "\t", ..Style::default() }));
        }
    }
    for t in ["( 1 , 2 )", "{a:1 , b : 2}", "V\n(\t1)", "V{ }", "V ( )", "(+1_000_, -0_0,0001)", "v\"x\\\"y\"(1)", "{ \"a\" : v \"x\" (1) }", "(true,false)", "(v (1), vv(2), v\"v\"(3))", "'''", "'\\''", "( (),{} )", "<>", "12__", "(V(W{x:X()}))", "tru (1)", "{true:true}", "\u{a0}1", "(\u{a0}1\u{2003},\u{3000}2)", "1 2", "truetrue(1)"] {
        out.push(t.to_string());
    }
    out.sort();
    out.dedup();
    out
}
fn edits(t: &str, tier: Tier) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut out = vec![t.to_string()];
    let subst: Vec<char> = CHARS.iter().copied().chain("\u{2003}.;#[]!b9ſ\r\0=".chars()).collect();
    let cs_lim = cs.len().min(tier.pick(40, 90));
    let mk = |a: &[char], m: &[char], b: &[char]| -> String { a.iter().chain(m).chain(b).collect() };
    for k in 0..=cs_lim {
        out.push(mk(&cs[..k], &[], &[]));
        if k < cs.len() {
            out.push(mk(&cs[..k], &[], &cs[k + 1..]));
            out.push(mk(&cs[..k], &[cs[k], cs[k]], &cs[k + 1..]));
        }
        for x in &subst {
            out.push(mk(&cs[..k], &[*x], &cs[k..]));
            if k < cs.len() {
                out.push(mk(&cs[..k], &[*x], &cs[k + 1..]));
            }
        }
        for j in k + 1..cs_lim {
            let mut x = cs.clone();
            x.swap(k, j);
            out.push(x.into_iter().collect());
            if tier == Tier::Thorough {
                out.push(mk(&cs[..k], &[], &cs[j..]));
            }
        }
    }
    for tail in [" ", "x", ",", ")", "}", "\n(1)", "é", "_", "1", "(", "{", "\"", " {}"] {
        out.push(format!("{t}{tail}"));
        out.push(format!("{tail}{t}"));
    }
    out
}
fn number_texts(tier: Tier) -> Vec<String> {
    let mut out = vec![];
    let max = u128::MAX.to_string();
    let half = (1u128 << 127).to_string();
    let half1 = ((1u128 << 127) - 1).to_string();
    let mut mags: Vec<String> = vec![];
    for base in [&max, &half, &half1, &u64::MAX.to_string()] {
        mags.push(base.clone());
        for k in 0..base.len() {
            for d in '0'..='9' {
                if tier == Tier::Quick && k > 3 && k + 4 < base.len() {
                    continue;
                }
                let mut c: Vec<char> = base.chars().collect();
                c[k] = d;
                mags.push(c.into_iter().collect());
            }
        }
        mags.push(format!("{base}0"));
        mags.push(format!("1{base}"));
        mags.push(format!("000{base}"));
        mags.push(format!("{}_{}", &base[..3], &base[3..]));
        mags.push(format!("{base}__"));
    }
    for k in 0..45 {
        mags.push(format!("1{}", "0".repeat(k)));
        mags.push("9".repeat(k + 1));
        mags.push(format!("{}1", "0".repeat(k)));
    }
    for m in mags {
        for sign in ["", "+", "-", "--", "+-", "_", "-_", "0x", " "] {
            out.push(format!("{sign}{m}"));
        }
        out.push(format!("(-{m},+{m})"));
        out.push(format!("{m}x"));
        out.push(format!("{m}.5"));
        out.push(format!("{{a:{m}}}"));
    }
    out.sort();
    out.dedup();
    out
}
pub fn for_texts(tier: Tier, f: impl Fn(&str, &mut Rec) + Send + Sync + Clone + 'static) -> Vec<Item> {
    let chars: Vec<String> = CHARS.iter().take(tier.pick(20, 26)).map(|c| c.to_string()).collect();
    let mut items = sequences("characters", chars, tier.pick(4, 5), f.clone());
    items.extend(sequences("tokens", TOKENS.iter().map(|s| s.to_string()).collect(), tier.pick(4, 5), f.clone()));
    let g = f.clone();
    items.extend(spread("edited", 16, base_texts, move |t, rec| {
        for e in edits(t, rec.tier) {
            g(&e, rec);
        }
    }));
    let g = f.clone();
    items.extend(spread("numbers", 4, number_texts, move |t, rec| g(t, rec)));
    // word pairs: everything that could be confused with a keyword, a name or a quoted name
    let mut w = vec![];
    for a in NAMES.iter().chain(&["tru", "truE", "TRUE", "fals", "v\"a", "v\"a\"", "v 'a'", "v\"\\x\"", "v\"a\"b", "v\"\"", "falsefalse", "true²", "trueé", "true\u{300}", "true-1", "false\"a\""]) {
        for sep in ["", " ", "\n\t", "\u{3000}", "_", "::", "."] {
            for b in ["", "(1)", "{}", "()", "{a:1}", "[1]", "{ true : 1 }", ":1"] {
                w.push(format!("{a}{sep}{b}"));
                w.push(format!("({a}{sep}{b})"));
                w.push(format!("{{{a}{sep}:{b}}}"));
                w.push(format!("{{x:{a}{sep}{b}}}"));
            }
        }
    }
    let g = f.clone();
    items.extend(spread("words", 4, move |_| w.clone(), move |t, rec| g(t, rec)));
    // fewer characters and tokens, longer texts
    let core = |x: &str| x.chars().map(|c| c.to_string()).collect::<Vec<_>>();
    items.extend(sequences("core characters", core("(){},:a1 \""), tier.pick(6, 7), f.clone()));
    items.extend(sequences("core tokens", ["(", ")", "{", "}", ",", ":", "a", "1", " ", "\"b\"", "v\"c\"", "true"].map(String::from).to_vec(), tier.pick(5, 7), f.clone()));
    items.extend(sequences("numbers", core("019_+- "), tier.pick(6, 8), f.clone()));
    items.extend(sequences("bits", core("01><_ "), tier.pick(5, 7), move_in(f.clone(), "<", "")));
    for (l, r) in [("\"", "\""), ("'", "'"), ("v\"", "\"(1)"), ("{\"", "\":1}"), ("V{a:\"", "\"}"), ("(\"", "\", \"x\")")] {
        let parts = ["a", "\\", "\\\"", "\\\\", "\\n", "\\'", "\"", "'", "\n", "é", ",", "n", "0", "u{61}", "🦀", "\0"].map(String::from).to_vec();
        items.extend(sequences(&format!("quoted {l}@{r}"), parts, tier.pick(3, 5), move_in(f.clone(), l, r)));
    }
    items.extend(wide_texts(tier, f));
    items
}
fn move_in(f: impl Fn(&str, &mut Rec) + Send + Sync + Clone + 'static, l: &'static str, r: &'static str) -> impl Fn(&str, &mut Rec) + Send + Sync + Clone + 'static {
    move |t: &str, rec: &mut Rec| {
        f(&format!("{l}{t}{r}"), rec);
        f(&format!("{l}{t}"), rec);
    }
}
/// Long and deep texts, every character in every role, every name, every kind of space.
fn wide_texts(tier: Tier, f: impl Fn(&str, &mut Rec) + Send + Sync + Clone + 'static) -> Vec<Item> {
    let mut items = vec![];
    // every character in every role
    const ROLES: [&str; 30] = [
        "@", "'@'", "\"@\"", "'\\@'", "\"\\@\"", "\"a\\@b\"", "@1", "1@", "1@2", "-@1", "-1@", "@(1)", "a@(1)", "@a(1)", "a@", "{a@:1}", "{@a:1}", "{@:1}", "{a:@1}", "{a:1@}", "(1@)", "(@1)", "(1@2)", "(1,@2)", "<@>", "<1@", "true@", "true@(1)", "v@\"a\"", "V @ (1)",
    ];
    let n = 64u32;
    for part in 0..n {
        let f = f.clone();
        items.push(item(format!("characters in every role {part}"), move |rec: &mut Rec| {
            for c in (part..0x110000).step_by(n as usize).filter_map(char::from_u32) {
                let x = c as u32;
                let special = at_class_edge(c) || c.is_whitespace() || c.is_numeric() || x < 0x800 || (x & 0xfff) < 3 || (x & 0xfff) > 0xffc || (0xd7f0..0xe010).contains(&x);
                if rec.tier == Tier::Quick && !special && (x > 0x3100 || x / n % 4 != 0) && x / n % 40 != 0 {
                    continue;
                }
                for r in ROLES {
                    f(&r.replace('@', c.encode_utf8(&mut [0; 4])), rec);
                }
            }
        }));
    }
    // every name
    let g = f.clone();
    items.extend(spread("names in every role", 32, names_of_every_kind, move |n: &String, rec| {
        let q = quoted(n);
        for t in [n.clone(), format!("{n}(1)"), format!("{n} {{a:1}}"), format!("{{{n}:1}}"), format!("{{ a:2, {n} : 1 }}"), format!("({n}, 1)"), format!("v{q}(1)"), format!("v{q} {{}}"), q.clone(), format!("{{{q}:1}}"), format!("{{{q} : v{q}()}}"), format!("{q}(1)"), format!("v\"{n}\"(1)"), format!("\"{n}\""), format!("'{n}'"), format!("<{n}>"), format!("-{n}")] {
            g(&t, rec);
        }
    }));
    // printed values of every size, whole, cut and damaged
    items.extend(sized_texts(tier, f.clone()));
    items.extend(runs(tier, f.clone()));
    // every kind and amount of space between tokens
    let g = f.clone();
    let spaces = |_: Tier| {
        let mut out: Vec<String> = (0..0x10000u32).filter_map(char::from_u32).filter(|c| c.is_whitespace()).map(String::from).collect();
        out.extend(["\u{200b}", "\u{feff}", "\u{180e}", "\u{2060}", "\u{1c}", "\u{1f}", "\0", "_", ";", "//", "/**/", "#", ".", ",", ",,", ":"].map(String::from));
        let w: Vec<String> = out.clone();
        for a in &w {
            for b in [" ", "\n", "\t\r\n", "\u{3000}"] {
                out.push(format!("{a}{b}"));
                out.push(format!("{b}{a}"));
            }
        }
        for n in [3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000] {
            out.extend([" ".repeat(n), "\t".repeat(n), "\n".repeat(n), "\u{2003}".repeat(n)]);
        }
        out
    };
    const SPACED: [&[&str]; 16] = [
        &["(", "1", ",", "2", ")"],
        &["{", "a", ":", "1", ",", "b", ":", "2", "}"],
        &["V", "(", "1", ")"],
        &["V", "{", "a", ":", "1", "}"],
        &["v", "\"x y\"", "(", ")"],
        &["(", "(", ")", ",", "{", "}", ")"],
        &["true", "(", "1", ")"],
        &["-", "1"],
        &["<", "0", "1", ">"],
        &["{", "\"a\"", ":", "V", "{", "}", "}"],
        &["1", "2"],
        &["'", "a", "'"],
        &["(", "true", ",", "'x'", ",", "\"s\"", ",", "<01>", ")"],
        &["V", "x", "(", ")"],
        &["1", "_", "0"],
        &["(", "1", ",", ")"],
    ];
    items.extend(spread("spaces", 16, spaces, move |sp: &String, rec| {
        for toks in SPACED {
            // in one gap, in all gaps, in all but one
            let mut all = String::new();
            for k in 0..=toks.len() {
                let one = format!("{}{sp}{}", toks[..k].concat(), toks[k..].concat());
                g(&one, rec);
                let mut most = String::new();
                for (j, t) in toks.iter().enumerate() {
                    if j != k {
                        most.push_str(sp);
                    }
                    most.push_str(t);
                }
                g(&most, rec);
                all.push_str(sp);
                all.push_str(toks.get(k).copied().unwrap_or(""));
            }
            g(&all, rec);
        }
    }));
    // nesting
    let g = f;
    for part in 0..8 {
      let g = g.clone();
      items.push(item(format!("nesting {part}"), move |rec: &mut Rec| {
        let kinds: [(&str, &str); 8] = [("(", ")"), ("{a:", "}"), ("V(", ")"), ("V{x:", "}"), ("(1,", ")"), ("( ", ",2)"), ("v\"q r\" (", ")"), ("{\"é\" : W (", ",true)}")];
        let (l, r) = kinds[part];
            for (l2, r2) in kinds {
                for d in (0..rec.tier.pick(40usize, 80)).chain([100, 128, 150]) {
                    let mut t = String::new();
                    let mut end = String::new();
                    for k in 0..d {
                        t.push_str(if k % 2 == 0 { l } else { l2 });
                        end.insert_str(0, if k % 2 == 0 { r } else { r2 });
                    }
                    for leaf in ["1", "", "x", "()", "W{}"] {
                        let whole = format!("{t}{leaf}{end}");
                        g(&whole, rec);
                        g(&format!("{whole})"), rec);
                        g(&format!("{whole} x"), rec);
                        if !whole.is_empty() {
                            g(&whole[..whole.len() - 1], rec);
                        }
                        if d < 12 {
                            for k in 0..whole.len() {
                                if whole.is_char_boundary(k) && whole.is_char_boundary(k + 1) {
                                    g(&format!("{}{}", &whole[..k], &whole[k + 1..]), rec);
                                }
                            }
                        }
                    }
                }
            }
      }));
    }
    items
}
/// Runs of every length of what a text may repeat, in every place which takes it.
fn runs(tier: Tier, f: impl Fn(&str, &mut Rec) + Send + Sync + Clone + 'static) -> Vec<Item> {
    const RUNS: [(&str, &str, &str); 34] = [
        ("", "0", "17"),
        ("-", "0", "17"),
        ("", "0", ""),
        ("1", "_", "7"),
        ("1", "_0", ""),
        ("(", "0_", "9)"),
        ("", "7", ""),
        ("-", "-", "1"),
        ("", "a", "(1)"),
        ("", "é", "{}"),
        ("a", "_", "(1)"),
        ("a", "9", "()"),
        ("{", "k", ":1}"),
        ("{a", "1_", ":1}"),
        ("", " ", "1"),
        ("(1", " ", ")"),
        ("V", "\n", "()"),
        ("\"", "x", "\""),
        ("\"", "\\n", "\""),
        ("\"", "\\\\", "\""),
        ("\"", "'", "\""),
        ("{\"", "\\\"", "\":1}"),
        ("v\"", "\\t", "\"(1)"),
        ("v\"", "🦀", "\"{}"),
        ("'", "a", "'"),
        ("<", "01", ">"),
        ("<", "1", ">"),
        ("(", "1,", "2)"),
        ("(", "(),", ")"),
        ("{", "a:1,", "}"),
        ("", ",", "1"),
        ("", "true", "()"),
        ("true", "1", "()"),
        ("", "\u{3000}", "{ a : 1 }"),
    ];
    let lens = |tier: Tier| {
        let mut out: Vec<usize> = (2..tier.pick(70, 140)).collect();
        for p in 7..tier.pick(13, 17) {
            out.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
        }
        out.extend([100, 1000, 10_000]);
        out
    };
    spread("runs", 8, lens, move |n: &usize, rec| {
        for (l, x, r) in RUNS {
            let mid = x.repeat(*n);
            let mut t = format!("{l}{mid}{r}");
            f(&t, rec);
            f(&format!("{t} x"), rec);
            f(&format!("({t}, {t})"), rec);
            f(&format!("{l}{mid}"), rec);
            t.pop();
            f(&t, rec);
        }
    })
}
fn sized_texts(tier: Tier, f: impl Fn(&str, &mut Rec) + Send + Sync + Clone + 'static) -> Vec<Item> {
    let f: &'static (dyn Fn(&str, &mut Rec) + Send + Sync) = Box::leak(Box::new(f));
    sized_values(tier, move |v, rec| {
        if matches!(v.value, ValueDef::Primitive(_)) {
            f(&reference_print(v, &Style::default()), rec);
            return;
        }
        for (k, st) in [Style::default(), Style { compact: true, ..Style::default() }, Style { pretty: true, ..Style::default() }].iter().enumerate() {
            let t = reference_print(v, st);
            f(&t, rec);
            if k == 2 && rec.tier == Tier::Quick {
                continue;
            }
            for tail in ["x", " (1)", ",", "\n{}", "_", "é"] {
                f(&format!("{t}{tail}"), rec);
            }
            let cs: Vec<(usize, char)> = t.char_indices().collect();
            let n = cs.len();
            let mut places: Vec<usize> = if n < 40 { (0..n).collect() } else { (0..6).chain(n - 6..n).chain([n / 2, n / 2 + 1, n / 2 + 2, n / 3]).collect() };
            if n > 5000 {
                places = vec![0, n / 2, n - 1];
            }
            for k in places {
                let (at, c) = cs[k];
                f(&t[..at], rec);
                f(&format!("{}{}", &t[..at], &t[at + c.len_utf8()..]), rec);
                f(&format!("{},{}", &t[..at], &t[at..]), rec);
                f(&format!("{} {}", &t[..at], &t[at..]), rec);
            }
        }
    })
}

// ------------------------------------------------------------------ S03
pub fn s03(tier: Tier) -> Vec<Item> {
    for_texts(tier, |t, rec| {
        rec.case(
            || format!("{t:?}"),
            || {
                step();
                let (r, rest) = from_str(t);
                total_checks(t, &r, rest)?;
                if let Ok(v) = &r {
                    let used = &t[..t.len() - rest.len()];
                    step();
                    let (r2, rest2) = from_str(used);
                    match r2 {
                        Ok(v2) if v2 == *v && rest2.is_empty() => {}
                        Ok(v2) => return Err(format!("{used:?} was consumed as {} but alone parses to {} leaving {rest2:?}", showv(v), showv(&v2))),
                        Err(e) => return Err(format!("{used:?} was consumed as {} but alone fails: {e}", showv(v))),
                    }
                    if let Ok((_, at)) = reference_parse(t) {
                        if used.len() != at {
                            return Err(format!("the remainder is {rest:?} instead of {:?}", &t[at..]));
                        }
                    }
                    Ok(if rest.is_empty() { "parsed, all consumed" } else { "parsed, remainder" })
                } else {
                    Ok("refused")
                }
            },
        );
    })
}
fn total_checks(t: &str, r: &Result<V, ParseError>, rest: &str) -> Result<(), String> {
    if rest.len() > t.len() || !t.is_char_boundary(t.len() - rest.len()) {
        return Err(format!("the remainder {rest:?} is not a suffix"));
    }
    let at = t.len() - rest.len();
    if rest.as_ptr() != t[at..].as_ptr() && !rest.is_empty() || &t[at..] != rest {
        return Err(format!("the remainder {rest:?} is not the suffix at {at}"));
    }
    if let Err(e) = r {
        if e.start_loc > t.len() || !t.is_char_boundary(e.start_loc) {
            return Err(format!("error start {} is outside the text or inside a character: {e}", e.start_loc));
        }
        if let Some(end) = e.end_loc {
            if end < e.start_loc || end > t.len() + 1 {
                return Err(format!("error end {end} (start {}) is outside the text: {e}", e.start_loc));
            }
        }
        let _ = format!("{e} {e:?}");
    } else if rest.len() == t.len() {
        return Err("a value was parsed from no text".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ S04
pub fn s04(tier: Tier) -> Vec<Item> {
    for_texts(tier, |t, rec| {
        rec.case(
            || format!("{t:?}"),
            || {
                step();
                let (r, rest) = from_str(t);
                match (r, reference_parse(t)) {
                    (Ok(v), Ok((w, at))) => {
                        if v != w || showv(&v) != showv(&w) {
                            return Err(format!("parsed as {} instead of {}", showv(&v), showv(&w)));
                        }
                        if t.len() - rest.len() != at {
                            return Err(format!("parsed as {} leaving {rest:?} instead of {:?}", showv(&v), &t[at..]));
                        }
                        Ok(match &w.value {
                            ValueDef::Composite(_) => "composite",
                            ValueDef::Variant(_) => "variant",
                            ValueDef::BitSequence(_) => "bits",
                            ValueDef::Primitive(Primitive::Bool(_)) => "bool",
                            ValueDef::Primitive(Primitive::Char(_)) => "char",
                            ValueDef::Primitive(Primitive::String(_)) => "string",
                            ValueDef::Primitive(Primitive::I128(_)) => "negative",
                            ValueDef::Primitive(_) => "number",
                        })
                    }
                    (Err(_), Err(_)) => Ok("refused"),
                    (Ok(v), Err(_)) => Err(format!("accepted as {} leaving {rest:?}, but it does not start with a value", showv(&v))),
                    (Err(e), Ok((w, _))) => Err(format!("refused ({e}) but it starts with {}", showv(&w))),
                }
            },
        );
    })
}

// ------------------------------------------------------------------ S10
/// Why a text is not (yet) a value: it stops too early, or nothing can put it right.
enum Not {
    Yet,
    Ever,
}
/// A recogniser of the beginnings of values: says whether a text can be continued to one which
/// starts with a value that takes in all of the text. Written apart from the parsers above.
struct Begin<'a> {
    cs: &'a [char],
}
impl Begin<'_> {
    fn get(&self, at: usize) -> Result<char, Not> {
        self.cs.get(at).copied().ok_or(Not::Yet)
    }
    fn spaces(&self, mut at: usize) -> usize {
        while self.cs.get(at).is_some_and(|c| c.is_whitespace()) {
            at += 1;
        }
        at
    }
    fn one(&self, at: usize, c: char) -> Result<usize, Not> {
        if self.get(at)? == c { Ok(at + 1) } else { Err(Not::Ever) }
    }
    /// past a character inside quotes, with its escape
    fn escaped(&self, at: usize) -> Result<usize, Not> {
        if self.get(at)? != '\\' {
            return Ok(at + 1);
        }
        if "ntr0\"'\\".contains(self.get(at + 1)?) { Ok(at + 2) } else { Err(Not::Ever) }
    }
    fn quoted(&self, at: usize) -> Result<usize, Not> {
        let mut at = self.one(at, '"')?;
        while self.get(at)? != '"' {
            at = self.escaped(at)?;
        }
        Ok(at + 1)
    }
    fn word(&self, at: usize) -> Result<usize, Not> {
        if !self.get(at)?.is_alphabetic() {
            return Err(Not::Ever);
        }
        let n = self.cs[at..].iter().take_while(|c| c.is_alphanumeric() || **c == '_').count();
        Ok(at + n)
    }
    /// items up to the closing character
    fn items(&self, at: usize, close: char) -> Result<usize, Not> {
        let mut at = self.spaces(at + 1);
        if self.get(at)? == close {
            return Ok(at + 1);
        }
        loop {
            if close == '}' {
                at = if self.get(at)? == '"' { self.quoted(at)? } else { self.word(at)? };
                at = self.spaces(self.one(self.spaces(at), ':')?);
            }
            at = self.spaces(self.value(at)?);
            if self.get(at)? == close {
                return Ok(at + 1);
            }
            at = self.spaces(self.one(at, ',')?);
        }
    }
    fn value(&self, at: usize) -> Result<usize, Not> {
        match self.get(at)? {
            '(' => self.items(at, ')'),
            '{' => self.items(at, '}'),
            '"' => self.quoted(at),
            '\'' => {
                self.get(at + 1)?;
                let end = self.escaped(at + 1)?;
                self.one(end, '\'')
            }
            '<' => {
                let n = self.cs[at + 1..].iter().take_while(|c| ['0', '1'].contains(c)).count();
                self.one(at + 1 + n, '>')
            }
            c if c == '+' || c == '-' || c.is_ascii_digit() => {
                let first = if c.is_ascii_digit() { at } else { at + 1 };
                if !self.get(first)?.is_ascii_digit() {
                    return Err(Not::Ever);
                }
                let n = self.cs[first..].iter().take_while(|c| c.is_ascii_digit() || **c == '_').count();
                let digits: String = self.cs[first..first + n].iter().filter(|c| **c != '_').collect();
                let digits = digits.trim_start_matches('0');
                let limit = if c == '-' { "170141183460469231731687303715884105728" } else { "340282366920938463463374607431768211455" };
                if digits.len() > limit.len() || digits.len() == limit.len() && digits > limit {
                    return Err(Not::Ever);
                }
                Ok(first + n)
            }
            'v' if self.cs.get(at + 1) == Some(&'"') => self.rest_of_variant(self.quoted(at + 1)?),
            _ => {
                let end = self.word(at)?;
                let w: String = self.cs[at..end].iter().collect();
                if w == "true" || w == "false" { Ok(end) } else { self.rest_of_variant(end) }
            }
        }
    }
    fn rest_of_variant(&self, at: usize) -> Result<usize, Not> {
        let at = self.spaces(at);
        match self.get(at)? {
            '(' => self.items(at, ')'),
            '{' => self.items(at, '}'),
            _ => Err(Not::Ever),
        }
    }
}
fn can_go_on(t: &str) -> bool {
    let cs: Vec<char> = t.chars().collect();
    match (Begin { cs: &cs }).value(0) {
        // a value ending with the text, or a word such as true which can become a name
        Ok(end) => end == cs.len(),
        Err(Not::Yet) => true,
        Err(Not::Ever) => false,
    }
}
pub fn s10(tier: Tier) -> Vec<Item> {
    for_texts(tier, |t, rec| {
        rec.case(
            || format!("{t:?}"),
            || {
                step();
                let e = match from_str(t) {
                    (Ok(_), _) => return Ok("parsed"),
                    (Err(e), _) => e,
                };
                range_checks(t, &e)
            },
        );
    })
}
fn range_checks(t: &str, e: &ParseError) -> Result<&'static str, String> {
    let (start, end) = (e.start_loc, e.end_loc);
    let Some(before) = t.get(..start) else {
        return Err(format!("the error starts at {start}, outside the text or inside a character: {e}"));
    };
    if !can_go_on(before) {
        return Err(format!("the error starts at {start}, but {before:?} already cannot begin a value: {e}"));
    }
    // the text of the error names its place
    let place = match end {
        Some(end) => format!("Error from char {start} to {end}: {}", e.err),
        None => format!("Error at char {start}: {}", e.err),
    };
    if e.to_string() != place {
        return Err(format!("the error is shown as {:?} instead of {place:?}", e.to_string()));
    }
    // an opening character which is reported unmatched is there and opens what is wrong
    let opener = match &e.err {
        ParseErrorKind::Complex(ParseComplexError::ExpectedCloserToMatch(c, at)) => match c {
            ')' => Some(('(', *at)),
            '}' => Some(('{', *at)),
            _ => return Err(format!("what closes with {c:?}? {e}")),
        },
        ParseErrorKind::Char(ParseCharError::ExpectedClosingQuoteToMatch(at)) => Some(('\'', *at)),
        ParseErrorKind::String(ParseStringError::ExpectedClosingQuoteToMatch(at)) => Some(('"', *at)),
        ParseErrorKind::BitSequence(ParseBitSequenceError::ExpectedClosingBracketToMatch(at)) => Some(('<', *at)),
        _ => None,
    };
    if let Some((c, at)) = opener {
        if at >= start || !t.get(at..).is_some_and(|r| r.starts_with(c)) {
            return Err(format!("no {c:?} opens at {at}: {e}"));
        }
        // it is open: closing it there, and nothing else, would do
        let closer = match c {
            '(' => ')',
            '{' => '}',
            '<' => '>',
            c => c,
        };
        if !can_go_on(&format!("{before}{closer}")) {
            return Err(format!("{before:?} cannot go on with {closer:?}: {e}"));
        }
        // and what closes is what opened there
        let closes = |inner: String| {
            let cs: Vec<char> = inner.chars().collect();
            matches!((Begin { cs: &cs }).value(0), Ok(n) if n == cs.len())
        };
        let inner = &before[at..];
        // (a string may stop right after the backslash of an escape)
        if !closes(format!("{inner}{closer}")) && !(c == '"' && closes(format!("{inner}{closer}{closer}"))) {
            return Err(format!("{inner:?} is not what opens at {at} and is closed by {closer:?}: {e}"));
        }
    }
    // what the error says is expected would do there
    let expected = match &e.err {
        ParseErrorKind::ExpectedValue => Some("1".to_string()),
        ParseErrorKind::Complex(ParseComplexError::MissingFieldSeparator(c)) => Some(c.to_string()),
        ParseErrorKind::Complex(ParseComplexError::InvalidStartingCharacterInIdent | ParseComplexError::InvalidFieldName) => Some("a".into()),
        ParseErrorKind::Char(ParseCharError::ExpectedValidCharacter) => Some("a".into()),
        ParseErrorKind::Char(ParseCharError::ExpectedValidEscapeCode) | ParseErrorKind::String(ParseStringError::ExpectedValidEscapeCode) => {
            if !before.ends_with('\\') {
                return Err(format!("no backslash before {start}: {e}"));
            }
            Some("n".into())
        }
        ParseErrorKind::Number(ParseNumberError::ExpectedDigit) => Some("7".into()),
        _ => None,
    };
    if let Some(x) = expected {
        if !can_go_on(&format!("{before}{x}")) {
            return Err(format!("{x:?} would not do after {before:?}: {e}"));
        }
    }
    match end {
        None => Ok("no end given"),
        Some(end) if end > t.len() => {
            if end != t.len() + 1 {
                return Err(format!("the error ends at {end}, further than one past the text: {e}"));
            }
            if start != t.len() {
                return Err(format!("the error goes from {start} inside the text to past its end: {e}"));
            }
            if !can_go_on(t) {
                return Err(format!("the error is beyond the text, but nothing that follows can put it right: {e}"));
            }
            Ok("incomplete")
        }
        Some(end) => {
            let Some(up_to) = t.get(..end) else {
                return Err(format!("the error ends at {end}, inside a character: {e}"));
            };
            if end <= start {
                return Err(format!("the error range {start}..{end} is empty: {e}"));
            }
            if can_go_on(up_to) {
                return Err(format!("the error range {start}..{end} stops before the mistake: {up_to:?} can go on to be a value: {e}"));
            }
            Ok("wrong in a range")
        }
    }
}

// ------------------------------------------------------------------ S05
/// The custom parsers used: each is a model (what it answers) and a way of moving the cursor.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    /// declines, after moving its cursor one character on
    Mover,
    /// declines, after setting its cursor to the end
    Ender,
    /// takes a run of é
    Accents,
    /// takes the two digits 12 (which are a number to the built-in syntax)
    Twelve,
    /// fails on E, marking the second character; EE marks one to three; a longer run marks its end
    Fails,
    /// takes one crab
    Crab,
    /// takes nothing, but answers, on ~
    Nothing,
    /// takes everything that is left, on $
    Rest,
    /// takes é12 (overlaps with Accents and Twelve)
    Both,
    /// takes "V" (a name to the built-in syntax), true, and quoted strings' first quote
    Word,
}
const KS: [K; 10] = [K::Mover, K::Ender, K::Accents, K::Twelve, K::Fails, K::Crab, K::Nothing, K::Rest, K::Both, K::Word];
fn model(k: K, t: &str) -> Option<Answer> {
    let take = |name: &str, n: usize| Some(Answer::Take(s(name), n));
    match k {
        K::Mover | K::Ender => None,
        K::Accents => {
            let n = t.len() - t.trim_start_matches('é').len();
            (n > 0).then(|| Answer::Take(un(vec![s("accents"), u(n as u128)]), n))
        }
        K::Twelve if t.starts_with("12") => take("twelve", 2),
        K::Fails if t.starts_with("EEE") => {
            let n = t.len() - t.trim_start_matches('E').len();
            let (from, to) = match t.as_bytes().get(n) {
                Some(b'!') => (0, Some(n)),
                Some(b'?') => (n, Some(n + 1)),
                Some(b'.') => (n, None),
                Some(b';') => (n / 2, Some(2 * n)),
                _ => (n - 1, Some(n)),
            };
            Some(Answer::Fail(from, to, "far".into()))
        }
        K::Fails if t.starts_with("EE") => Some(Answer::Fail(1, Some(3), "twice".into())),
        K::Fails if t.starts_with('E') => Some(Answer::Fail(0, None, "once".into())),
        K::Crab if t.starts_with('🦀') => take("crab", 4),
        K::Nothing if t.starts_with('~') => take("nothing", 0),
        K::Rest if t.starts_with('$') => take("rest", t.len()),
        K::Both if t.starts_with("é12") => take("both", 4),
        K::Word if t.starts_with('V') => take("word", 1),
        K::Word if t.starts_with("true") => take("truth", 4),
        _ => None,
    }
}
thread_local! {
    static ASKED: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
    static BASE: RefCell<(usize, usize)> = const { RefCell::new((0, 0)) };
}
fn real_parser(ix: usize, k: K) -> impl Fn(&mut &str) -> Option<Result<V, ParseError>> + 'static {
    move |cur: &mut &str| {
        let (base, len) = BASE.with(|b| *b.borrow());
        let at = (cur.as_ptr() as usize).wrapping_sub(base);
        // position usize::MAX marks "not a suffix of the text"
        let pos = if at <= len && at + cur.len() == len { at } else { usize::MAX };
        ASKED.with(|a| a.borrow_mut().push((ix, pos)));
        match model(k, cur) {
            None => {
                if k == K::Mover {
                    let mut c = cur.chars();
                    c.next();
                    *cur = c.as_str();
                }
                if k == K::Ender {
                    *cur = &cur[cur.len()..];
                }
                None
            }
            Some(Answer::Take(v, n)) => {
                *cur = &cur[n..];
                Some(Ok(v))
            }
            Some(Answer::Fail(s0, e, m)) => {
                // a failing parser may leave its cursor anywhere
                *cur = &cur[cur.len()..];
                let k = ParseErrorKind::custom(m);
                Some(Err(match e {
                    None => k.at(s0),
                    Some(e) => k.between(s0, e),
                }))
            }
        }
    }
}
fn s05_case(cfg: &[K], t: &str) -> Verdict {
    let models: Vec<Box<dyn Fn(&str) -> Option<Answer>>> = cfg.iter().map(|k| { let k = *k; Box::new(move |t: &str| model(k, t)) as Box<dyn Fn(&str) -> Option<Answer>> }).collect();
    let refs: Vec<ModelParser> = models.iter().map(|b| &**b as ModelParser).collect();
    let mut rd = Rd { text: t, at: 0, customs: &refs, asked: vec![] };
    let want = rd.value();
    let mut builder = from_str_custom();
    for (ix, k) in cfg.iter().enumerate() {
        builder = builder.add_custom_parser(real_parser(ix, *k));
    }
    ASKED.with(|a| a.borrow_mut().clear());
    BASE.with(|b| *b.borrow_mut() = (t.as_ptr() as usize, t.len()));
    step();
    let (r, rest) = builder.parse(t);
    let asked_once = ASKED.with(|a| a.borrow_mut().len());
    // the builder is as good as new afterwards
    step();
    let (again, rest2) = builder.parse(t);
    let alike = match (&again, &r) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if !alike || rest2 != rest {
        return Err(format!("parsing with the same builder again does not give {r:?} and {rest:?} again"));
    }
    ASKED.with(|a| a.borrow_mut().truncate(asked_once));
    let mut asked = ASKED.with(|a| std::mem::take(&mut *a.borrow_mut()));
    asked.dedup();
    if rest.len() > t.len() || !t.ends_with(rest) {
        return Err(format!("the remainder {rest:?} is not a suffix"));
    }
    if asked.iter().any(|a| a.1 == usize::MAX) {
        return Err("a parser was offered something other than the rest of the text".into());
    }
    if asked != rd.asked {
        return Err(format!("(parser, position) asked: {asked:?}, expected: {:?}", rd.asked));
    }
    match (r, want) {
        (Ok(v), Ok(w)) => {
            if v != w {
                return Err(format!("parsed {} instead of {}", showv(&v), showv(&w)));
            }
            if t.len() - rest.len() != rd.at {
                return Err(format!("remainder {rest:?} instead of {:?}", &t[rd.at..]));
            }
            Ok("parsed")
        }
        (Err(e), Err(Fail::Custom { start, end, msg })) => {
            if e.start_loc != start || e.end_loc != end || e.err != ParseErrorKind::Custom(msg.clone()) {
                return Err(format!("error {e:?} instead of {msg} from {start} to {end:?}"));
            }
            Ok("custom error")
        }
        (Err(ParseError { err: ParseErrorKind::Custom(m), .. }), Err(Fail::Syntax)) => Err(format!("custom error {m} instead of a syntax error")),
        (Err(_), Err(_)) => Ok("syntax error"),
        (Ok(v), Err(e)) => Err(format!("parsed {} instead of failing with {e:?}", showv(&v))),
        (Err(e), Ok(w)) => Err(format!("failed with {e} instead of parsing {}", showv(&w))),
    }
}
fn configs(tier: Tier) -> Vec<Vec<K>> {
    let mut out: Vec<Vec<K>> = vec![vec![]];
    for a in KS {
        out.push(vec![a]);
        for b in KS {
            if b != a {
                out.push(vec![a, b]);
                {
                    let _ = tier;
                    for c in KS {
                        if c != a && c != b {
                            out.push(vec![a, b, c]);
                        }
                    }
                }
            }
        }
    }
    out.push(KS.to_vec());
    out.push(KS.iter().rev().copied().collect());
    out
}
pub fn s05(tier: Tier) -> Vec<Item> {
    let mut items = vec![];
    // texts in which custom text stands at each place where a value can be
    let cfgs = configs(tier);
    let toks: Vec<&str> = vec!["(", ")", "{", "}", "a", ":", ",", " ", "é", "12", "E", "🦀", "~", "$", "V", "\"é12\"", "true"];
    let len = tier.pick(3, 4);
    for (ci, cfg) in cfgs.into_iter().enumerate() {
        let toks = toks.clone();
        items.push(item(format!("parsers {cfg:?}"), move |rec: &mut Rec| {
            let cfg = &cfg;
            let mut run = |t: &str| rec.case(|| format!("parsers {cfg:?} text {t:?}"), || s05_case(cfg, t));
            let slots = ["é", "ééé", "12", "é12", "123", "E", "EE", "🦀", "🦀é", "~", "$", "V", "V(12)", "true", "1", "\"é12\"", "(é)", "{b:12}", "W(é,12)", "W{x:🦀}", "'é'", "<1>", "x", ""];
            let frames = ["@", "(@)", "( @ )", "(1, @)", "(@, 1)", "(é, @ ,1)", "{a:@}", "{ é : @ , b : 12}", "W(@)", "W {é: @, x: @}", "((@), @)", "{a: W(1, @), \"é\": (@)}", "v\"é\" (@)", "(@)@", "\"é\"@", "(\"日本\", 'é', @, 12)", "@ (1)", "@,", "(@,)", "( @"];
            for f in frames {
                for x in slots {
                    run(&f.replace('@', x));
                }
            }
            // two custom texts in one text
            if cfg.len() < 3 || ci % 4 == 0 {
                for f in ["(@, #)", "{a:@,b:#}", "(@ (#))", "W(@){x:#}", "(V(@), {x: #})", "@#", "((@,1),#)"] {
                    for x in slots {
                        for y in slots {
                            run(&f.replace('@', x).replace('#', y));
                        }
                    }
                }
            }
            // after many items and in many layers
            if cfg.len() < 3 || ci % 16 == 0 {
                for n in [7usize, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400] {
                    for x in ["é", "12", "E", "EE", "🦀", "V", "x", ""] {
                        run(&format!("({}{x})", "1, ".repeat(n)));
                        run(&format!("({}{x}", "\"é🦀\", ".repeat(n)));
                        run(&format!("({}{x}, 12)", format!("{x},").repeat(n)));
                        run(&format!("{{{} z: {x}}}", (0..n).map(|k| format!("é{k}:é12,")).collect::<String>()));
                        run(&format!("W({:>n$} {x}{:>n$})", "", ""));
                        run(&format!("\"{}\"", x.repeat(n)));
                        if n < 130 {
                            run(&format!("{}{x}{}", "(".repeat(n), ")".repeat(n)));
                            run(&format!("{}{x}{}", "W{é: ".repeat(n), "}".repeat(n)));
                            run(&format!("{}{x}{}", "(12,".repeat(n), ",é)".repeat(n)));
                        }
                    }
                }
            }
            // all short token sequences (every configuration of at most two parsers, and the long ones)
            let n = if cfg.len() <= 1 || cfg.len() > 3 { len + 1 } else if ci % 2 == 0 { len } else { len - 1 };
            let mut stack: Vec<String> = vec![String::new()];
            for _ in 0..n {
                let mut next = vec![];
                for p in &stack {
                    for x in &toks {
                        let t = format!("{p}{x}");
                        run(&t);
                        next.push(t);
                    }
                }
                stack = next;
            }
        }));
    }
    // mistakes far into the text, and far into what the parser was given
    for (ci, cfg) in [vec![K::Fails], vec![K::Accents, K::Fails], vec![K::Fails, K::Word]].into_iter().enumerate() {
        items.push(item(format!("far mistakes {cfg:?}"), move |rec: &mut Rec| {
            let mut lens: Vec<usize> = (3..20).chain(crate::big::lengths(20, &[5, 6, 7, 8, 9, 10, 12])).collect();
            if ci == 0 {
                lens.extend(crate::big::lengths(0, &[15, 16]));
            }
            lens.retain(|n| *n > 2);
            for n in lens {
                for mark in ["", "!", "?", ".", ";"] {
                    let run = format!("{}{mark}", "E".repeat(n));
                    for before in [0usize, 1, 100, 255, 256, 300, 65_535] {
                        if n > 300 && before > 1 && before != 256 {
                            continue;
                        }
                        for t in [format!("{}{run}", " ".repeat(before)), format!("({}{run})", "1,".repeat(before / 2)), format!("A{{a:{:before$}{run}, b: 1}}", "")] {
                            let cfg = &cfg;
                            rec.case(|| format!("parsers {cfg:?} after {before} of {:?}.. {n} E and {mark:?}", &t[..t.len().min(8)]), || s05_case(cfg, &t));
                        }
                    }
                }
            }
        }));
    }
    items
}

// ------------------------------------------------------------------ S06
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fm {
    Bools,
    Sevens,
    Pairs,
    Variants,
    Named,
    Everything,
    Never,
    Even,
    Hex,
}
const FMS: [Fm; 9] = [Fm::Bools, Fm::Sevens, Fm::Pairs, Fm::Variants, Fm::Named, Fm::Everything, Fm::Never, Fm::Even, Fm::Hex];
fn fm_model(f: Fm, v: &Value<u32>) -> Option<String> {
    let hit = match (f, &v.value) {
        (Fm::Bools, ValueDef::Primitive(Primitive::Bool(_))) => true,
        (Fm::Sevens, ValueDef::Primitive(Primitive::U128(7))) => true,
        (Fm::Pairs, ValueDef::Composite(c)) => c.len() == 2,
        (Fm::Variants, ValueDef::Variant(w)) => w.name.len() == 1,
        (Fm::Named, ValueDef::Composite(Composite::Named(_))) => true,
        (Fm::Everything, _) => true,
        (Fm::Even, _) => v.context % 2 == 0,
        (Fm::Hex, _) => return bytes_list(v).map(|b| hex_upper(&b)),
        _ => false,
    };
    hit.then(|| format!("[{f:?} {}]", v.context))
}
thread_local! {
    static OFFERED: RefCell<Vec<(usize, u32)>> = const { RefCell::new(Vec::new()) };
}
fn s06_values(tier: Tier) -> Vec<V> {
    let mut out = trees(&[u(7), b(true)], 2, 2, &["a", "b"], &["V"]);
    if tier == Tier::Thorough {
        out.extend(trees(&[u(7), b(false), s("x")], 2, 2, &["a", "b c"], &["W", "long name"]));
        out.extend(trees(&[u(7), b(true)], 3, 1, &["a"], &["V", "true"]));
    } else {
        out.extend(trees(&[i(1), bits("1"), ch('c')], 1, 2, &["a", "b"], &["W", "long"]));
    }
    out
}
fn fm_configs() -> Vec<Vec<Fm>> {
    vec![vec![], vec![Fm::Even], vec![Fm::Hex], vec![Fm::Bools], vec![Fm::Never, Fm::Pairs], vec![Fm::Variants, Fm::Named], vec![Fm::Hex, Fm::Everything], vec![Fm::Never; 20]]
}
fn fm_styles() -> Vec<(&'static str, Style)> {
    let mut out = vec![];
    for (n, st) in [
        ("plain", Style::default()),
        ("compact", Style { compact: true, ..Style::default() }),
        ("pretty", Style { pretty: true, ..Style::default() }),
        ("pretty, tabs", Style { pretty: true, indent: "\t", ..Style::default() }),
        ("pretty, leading", Style { pretty: true, lead: "// ", ..Style::default() }),
        ("pretty, both", Style { pretty: true, indent: "..", lead: ">", ..Style::default() }),
    ] {
        for context in [false, true] {
            out.push((n, Style { context, ..st.clone() }));
        }
    }
    out
}
pub fn s06(tier: Tier) -> Vec<Item> {
    let mut cfgs: Vec<Vec<Fm>> = vec![vec![]];
    for a in FMS {
        cfgs.push(vec![a]);
        for b in FMS {
            if a != b && (tier == Tier::Thorough || matches!(a, Fm::Never | Fm::Bools | Fm::Pairs | Fm::Hex)) {
                cfgs.push(vec![a, b]);
            }
        }
    }
    cfgs.push(FMS.to_vec());
    cfgs.push(vec![Fm::Never, Fm::Bools, Fm::Pairs]);
    let mut items = vec![];
    for cfg in cfgs {
        items.push(item(format!("formatters {cfg:?}"), move |rec: &mut Rec| {
            for v in s06_values(rec.tier) {
                let nv = number(&v);
                for (sn, st) in [("plain", Style::default()), ("compact", Style { compact: true, ..Style::default() }), ("pretty", Style { pretty: true, ..Style::default() })] {
                    for context in [false, true] {
                        let st = Style { context, ..st.clone() };
                        let cfg = &cfg;
                        let nv = &nv;
                        rec.case(|| format!("formatters {cfg:?} {sn} context {context} value {}", showv(nv)), || s06_case(cfg, nv, &st));
                    }
                }
            }
        }));
    }
    // Sizes, names, every option: each with a few lists of formatters.
    items.extend(sized(tier, |v, rec| {
        let nv = number(v);
        let n = crate::d::nodes(&nv);
        for (k, cfg) in fm_configs().iter().enumerate() {
            for (j, (sn, st)) in fm_styles().iter().enumerate() {
                if rec.tier == Tier::Quick && (n == 1 && j > 1 || n > 1 && (j + k + n as usize) % 4 != 0) {
                    continue;
                }
                rec.case(|| format!("formatters {cfg:?} {sn} context {} value {}", st.context, showv(&nv)), || s06_case(cfg, &nv, st));
            }
        }
    }));
    items.extend(spread("options", 8, s06_values, |v, rec| {
        let nv = number(v);
        for cfg in fm_configs() {
            for (sn, st) in fm_styles() {
                rec.case(|| format!("formatters {cfg:?} {sn} context {} value {}", st.context, showv(&nv)), || s06_case(&cfg, &nv, &st));
            }
        }
    }));
    items
}
fn s06_case(cfg: &[Fm], v: &Value<u32>, st: &Style) -> Verdict {
    let mut want_asked = vec![];
    let mut hits = 0;
    let want = reference_print_with(v, st, &mut |x: &Value<u32>| {
        for (i, f) in cfg.iter().enumerate() {
            want_asked.push((i, x.context));
            if let Some(t) = fm_model(*f, x) {
                hits += 1;
                return Some(t);
            }
        }
        None
    });
    OFFERED.with(|o| o.borrow_mut().clear());
    let mut got = String::new();
    s06_write(cfg, v, st, &mut got)?;
    if got != want {
        return Err(format!("printed\n{got}\ninstead of\n{want}"));
    }
    let asked = OFFERED.with(|o| std::mem::take(&mut *o.borrow_mut()));
    if asked != want_asked {
        return Err(format!("(formatter, node) offered {asked:?} instead of {want_asked:?}"));
    }
    Ok(match (hits > 0, st.context) {
        (true, true) => "replaced, with context",
        (true, false) => "replaced",
        (false, true) => "context only",
        (false, false) => "nothing replaced",
    })
}
fn s06_write(cfg: &[Fm], v: &Value<u32>, st: &Style, got: &mut String) -> Result<(), String> {
    let mut b = to_writer_custom();
    if st.compact {
        b = b.compact();
    }
    if st.pretty {
        b = b.pretty();
    }
    b = b.indent_by(st.indent).leading_indent(st.lead);
    for (i, f) in cfg.iter().enumerate() {
        let f = *f;
        b = b.add_custom_formatter(move |x: &Value<u32>, w: &mut &mut String| {
            OFFERED.with(|o| o.borrow_mut().push((i, x.context)));
            if f == Fm::Hex {
                return custom_formatters::format_hex(x, w);
            }
            fm_model(f, x).map(|t| {
                use std::fmt::Write;
                write!(w, "{t}")
            })
        });
    }
    if st.context {
        b = b.format_context(|c: &u32, w: &mut &mut String| {
            use std::fmt::Write;
            write!(w, "{c:?}")
        });
    }
    step();
    b.write(v, got).map_err(|_| "printing failed".to_string())
}

// ------------------------------------------------------------------ S07
/// What the hex parser must do with a text: None = leave alone, Some(Err) = refuse.
fn hex_model(t: &str) -> Option<Result<(Vec<u8>, usize), ()>> {
    let rest = t.strip_prefix("0x")?;
    let word: &str = &rest[..rest.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(rest.len())];
    if word.len() % 2 == 1 || !word.chars().all(|c| c.is_ascii_hexdigit()) {
        return Some(Err(()));
    }
    let b = (0..word.len() / 2).map(|k| u8::from_str_radix(&word[2 * k..2 * k + 2], 16).unwrap()).collect();
    Some(Ok((b, 2 + word.len())))
}
fn hex_case(t: &str) -> Verdict {
    step();
    let cur = &mut &*t;
    let r = custom_parsers::parse_hex(cur);
    let want = hex_model(t);
    let label = match (&r, &want) {
        (None, None) => {
            if *cur != t {
                return Err("declined but moved the cursor".into());
            }
            "left alone"
        }
        (Some(Err(e)), Some(Err(()))) => {
            if *cur != t {
                return Err("refused but moved the cursor".into());
            }
            if e.start_loc > t.len() || e.end_loc.is_some_and(|x| x < e.start_loc || x > t.len() + 1) {
                return Err(format!("error {e:?} points outside the text"));
            }
            "refused"
        }
        (Some(Ok(v)), Some(Ok((b, n)))) => {
            let w = un(b.iter().map(|b| u(*b as u128)).collect());
            if *v != w {
                return Err(format!("parsed to {} instead of {}", showv(v), hex(b)));
            }
            if *cur != &t[*n..] {
                return Err(format!("left {cur:?} instead of {:?}", &t[*n..]));
            }
            "parsed"
        }
        _ => return Err(format!("answered {:?} instead of {want:?}", r.map(|r| r.map(|v| showv(&v))))),
    };
    // and within a larger text
    let whole = format!("({t}, 1)");
    step();
    let (r, rest) = from_str_custom().add_custom_parser(custom_parsers::parse_hex).parse(&whole);
    let m = |x: &str| match hex_model(x) {
        None => None,
        Some(Ok((b, n))) => Some(Answer::Take(un(b.iter().map(|b| u(*b as u128)).collect()), n)),
        Some(Err(())) => Some(Answer::Fail(0, None, String::new())),
    };
    let customs: [ModelParser; 1] = [&m];
    let mut rd = Rd { text: &whole, at: 0, customs: &customs, asked: vec![] };
    match (r, rd.value()) {
        (Ok(v), Ok(w)) if v == w && whole.len() - rest.len() == rd.at => {}
        (Err(_), Err(_)) => {}
        (r, w) => return Err(format!("inside a list: {whole:?} gives {r:?} leaving {rest:?} instead of {w:?}")),
    }
    Ok(label)
}
pub fn s07(tier: Tier) -> Vec<Item> {
    let mut items = vec![];
    let f = |t: &str, rec: &mut Rec| {
        rec.case(|| format!("text {t:?}"), || hex_case(t));
    };
    // 0x and all continuations over an alphabet
    let ab: Vec<String> = "0f9AaFgGz,é_ )xX@`:/".chars().take(tier.pick(16, 20)).map(|c| c.to_string()).collect();
    items.extend(sequences("0x", ab.clone(), tier.pick(4, 5), move |t, rec| f(&format!("0x{t}"), rec)));
    items.extend(sequences("no prefix", ab, 3, f));
    items.push(item("every byte, every pair of digits", move |rec: &mut Rec| {
        for a in 0..128u8 {
            for b in 0..128u8 {
                f(&format!("0x{}{}", a as char, b as char), rec);
            }
            f(&format!("0X{}0", a as char), rec);
            f(&format!("{}x00", a as char), rec);
            f(&format!("0{}00", a as char), rec);
        }
    }));
    // every length, with every kind of end and one bad digit in every place
    let top = tier.pick(140usize, 600);
    items.extend(spread("lengths", 16, move |_| (0..top).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65_535, 65_536, 70_000]).collect(), move |n: &usize, rec| {
        let digits: String = (0..2 * n).map(|k| b"0123456789abcdefABCDEF"[(k * 7 + n) % 22] as char).collect();
        let whole = format!("0x{digits}");
        f(&whole, rec);
        for end in ["f", "g", "0x", "_", " ", "é", ",", "²", "Z", "ff ", "٣", "x0", ")", "\"", "(1)", "{}", "'", "ａ"] {
            f(&format!("{whole}{end}"), rec);
        }
        let all = *n <= rec.tier.pick(40, 140);
        for k in 0..digits.len() {
            if all || k < 3 || k + 3 > digits.len() || (k & (k - 1) == 0 && k > 16) {
                for bad in ["g", "G", "_", " ", "x", "é", "", "-"] {
                    f(&format!("0x{}{bad}{}", &digits[..k], &digits[k + 1..]), rec);
                }
                f(&format!("0x{}{}", &digits[..k], digits[k..].to_uppercase()), rec);
            }
        }
    }));
    // every character right after, inside, and before
    for part in 0..16u32 {
        items.push(item(format!("characters {part}"), move |rec: &mut Rec| {
            for c in (part..0x110000).step_by(16).filter_map(char::from_u32) {
                if rec.tier == Tier::Quick && c as u32 > 0x3100 && c as u32 / 16 % 16 != 0 && !c.is_numeric() && !c.is_whitespace() {
                    continue;
                }
                for r in ["0x@", "0x1@", "0x12@", "0x12@3", "0x1@3", "0@12", "@0x12", "0x@@", "0x12@34", "@x12"] {
                    f(&r.replace('@', c.encode_utf8(&mut [0; 4])), rec);
                }
            }
        }));
    }
    // the formatter
    items.extend(spread(
        "lists",
        12,
        |tier| {
            let kids = vec![u(0), u(255), u(256), u(16), u(15), i(1), i(-1), b(true), s("a"), un(vec![u(1)]), u(1 << 64), u((1 << 64) + 5), u(1 << 127), ch('a'), bits("1"), p(Primitive::U256([0; 32])), p(Primitive::I256([0; 32]))];
            let mut out: Vec<V> = kids.clone();
            out.extend(containers(&kids, tier.pick(2, 3), &["a", "b", "c"], &["V"]));
            out.extend((0..=256u128).map(|n| un(vec![u(n)])));
            for a in 0..=255u128 {
                for b in [0u128, 1, 9, 10, 15, 16, 127, 128, 200, 255, 256, 300] {
                    out.push(un(vec![u(a), u(b)]));
                }
            }
            for n in (3..tier.pick(140usize, 600)).chain([255, 256, 257, 300, 512, 1024, 4096, 65_536, 70_000]) {
                out.push(un((0..n).map(|k| u((k * 37 % 256) as u128)).collect()));
                out.push(nm((0..n.min(2000)).map(|k| (["a", "", "b c"][k % 3], u((k * 37 % 256) as u128))).collect()));
                let mut places = vec![0, n / 2, n - 1];
                if n < 80 || n.is_power_of_two() || (n - 1).is_power_of_two() {
                    places.extend([1, n / 3, n - 2, 15 % n, 16 % n, 31 % n, 32 % n, 63 % n, 64 % n]);
                    places.sort();
                    places.dedup();
                }
                if n > 2000 {
                    places = vec![n / 2, n - 1];
                }
                for bad in places {
                    out.push(un((0..n).map(|k| if k == bad { u(255 + (1 << 8 + n % 100)) } else { u(7) }).collect()));
                    out.push(un((0..n).map(|k| if k == bad { un(vec![u(7)]) } else { u(7) }).collect()));
                    out.push(un((0..n).map(|k| if k == bad { s("7") } else { u(7) }).collect()));
                    out.push(un((0..n).map(|k| if k == bad { i(-1) } else { u(7) }).collect()));
                    out.push(un((0..n).map(|k| if k == bad { u(256) } else { u(7) }).collect()));
                    out.push(un((0..n).map(|k| if k == bad { b(true) } else { u(7) }).collect()));
                    out.push(un((0..n).map(|k| if k == bad { i(7) } else { u(7) }).collect()));
                }
            }
            out
        },
        |v, rec| {
            rec.case(
                || format!("value {}", showv(v)),
                || {
                    step();
                    let mut o = String::new();
                    let r = custom_formatters::format_hex(v, &mut o);
                    match (r, bytes_list(v)) {
                        (None, None) => {
                            if !o.is_empty() {
                                return Err(format!("declined, but wrote {o:?}"));
                            }
                            Ok("formatter declines")
                        }
                        (Some(Ok(())), Some(b)) => {
                            if !o.eq_ignore_ascii_case(&hex(&b)) || !o.starts_with("0x") {
                                return Err(format!("wrote {o:?} instead of {}", hex(&b)));
                            }
                            step();
                            let cur = &mut &*o;
                            match custom_parsers::parse_hex(cur) {
                                Some(Ok(w)) if w == *v && cur.is_empty() => Ok("formatter and back"),
                                r => Err(format!("wrote {o:?}, which reads back as {r:?} leaving {cur:?}")),
                            }
                        }
                        (r, m) => Err(format!("answered {r:?} (wrote {o:?}) although the byte list is {m:?}")),
                    }
                },
            );
        },
    ));
    items
}

// ------------------------------------------------------------------ S08
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn b58_encode(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut digits: Vec<u8> = vec![];
    for x in &b[zeros..] {
        let mut c = *x as u32;
        for d in digits.iter_mut() {
            c += (*d as u32) << 8;
            *d = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    "1".repeat(zeros) + &digits.iter().rev().map(|d| B58[*d as usize] as char).collect::<String>()
}
fn b58_decode(s: &str) -> Option<Vec<u8>> {
    let zeros = s.bytes().take_while(|x| *x == b'1').count();
    let mut out: Vec<u8> = vec![];
    for ch in s.bytes().skip(zeros) {
        let mut c = B58.iter().position(|x| *x == ch)? as u32;
        for d in out.iter_mut() {
            c += *d as u32 * 58;
            *d = c as u8;
            c >>= 8;
        }
        while c > 0 {
            out.push(c as u8);
            c >>= 8;
        }
    }
    out.extend(std::iter::repeat_n(0, zeros));
    out.reverse();
    Some(out)
}
fn ss58_hash(b: &[u8]) -> [u8; 2] {
    use blake2::Digest;
    let mut h = blake2::Blake2b512::new();
    h.update(b"SS58PRE");
    h.update(b);
    let r = h.finalize();
    [r[0], r[1]]
}
/// The account bytes and the word's length if the text starts with an address.
fn ss58_model(t: &str) -> Option<(Vec<u8>, usize)> {
    let word: String = t.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    let rest = &t[word.len()..];
    if word.is_empty() || word == "true" || word == "false" || word.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let next = rest.chars().next();
    if next.is_some_and(|c| c == '_' || c.is_alphanumeric()) {
        return None;
    }
    if rest.chars().find(|c| !c.is_whitespace()).is_some_and(|c| c == '(' || c == '{') {
        return None;
    }
    let b = b58_decode(&word)?;
    let plen = match b.first()? {
        0..=63 => 1,
        64..=127 => 2,
        _ => return None,
    };
    if b.len() < plen + 2 {
        return None;
    }
    let (body, sum) = b.split_at(b.len() - 2);
    if ss58_hash(body) != sum {
        return None;
    }
    Some((body[plen..].to_vec(), word.len()))
}
fn ss58_case(t: &str) -> Result<bool, String> {
    step();
    let cur = &mut &*t;
    let r = custom_parsers::parse_ss58(cur);
    match (r, ss58_model(t)) {
        (None, None) => {
            if *cur != t {
                return Err(format!("{t:?} declined but the cursor moved to {cur:?}"));
            }
            Ok(false)
        }
        (Some(Ok(v)), Some((b, n))) => {
            if v != un(b.iter().map(|b| u(*b as u128)).collect()) {
                return Err(format!("{t:?} taken as {} instead of {}", showv(&v), hex(&b)));
            }
            if *cur != &t[n..] {
                return Err(format!("{t:?} taken, leaving {cur:?} instead of {:?}", &t[n..]));
            }
            Ok(true)
        }
        (Some(Err(e)), _) => Err(format!("{t:?} refused instead of declined: {e}")),
        (None, Some((b, _))) => Err(format!("{t:?} declined although it is the address of {}", hex(&b))),
        (Some(Ok(v)), None) => Err(format!("{t:?} taken as {} although it is not an address", showv(&v))),
    }
}
const AFTER: [&str; 30] = ["", " ", ",", ")", ", 1)", "(1)", " (1)", "{", " {a:1}", "\n\t(", "\u{3000}{", " x (1)", "_x", "_x (1)", "_", "é", "é(1)", "²", "-", "@", ":", "\"", "🦀", "\u{300}", "日本 (1)", ". (", "<", "}", " )", "1é"];
fn addresses(tier: Tier) -> Vec<String> {
    let mut out = vec![];
    let lens: &[usize] = tier.pick(&[0, 1, 2, 8, 20, 32, 33], &[0, 1, 2, 3, 4, 8, 16, 20, 31, 32, 33, 34, 64]);
    for first in [0u8, 1, 2, 42, 62, 63, 64, 65, 100, 127, 128, 129, 255] {
        for second in if first < 64 { vec![None] } else { vec![Some(0u8), Some(7), Some(255)] } {
            for &n in lens {
                for pat in [0u8, 1, 255] {
                    let mut b = vec![first];
                    b.extend(second);
                    b.extend((0..n).map(|k| if pat == 1 { k as u8 * 3 + 1 } else { pat }));
                    let h = ss58_hash(&b);
                    b.extend(h);
                    out.push(b58_encode(&b));
                    // wrong in exactly one checksum bit
                    let k = b.len() - 1;
                    b[k] ^= 1;
                    out.push(b58_encode(&b));
                    b[k] ^= 1;
                    b[k - 1] ^= 0x80;
                    out.push(b58_encode(&b));
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
pub fn s08(tier: Tier) -> Vec<Item> {
    let mut items = spread("addresses", 16, addresses, |a, rec| {
        let label = |hit: bool| if hit { "address taken" } else { "declined" };
        for after in AFTER {
            let t = format!("{a}{after}");
            rec.case(|| format!("{t:?}"), || ss58_case(&t).map(label));
        }
        for before in [" ", "(", "1", "0", "l", "é", "_", "-", "+", "0x"] {
            let t = format!("{before}{a}");
            rec.case(|| format!("{t:?}"), || ss58_case(&t).map(label));
        }
        // edits
        let ab: Vec<u8> = match rec.tier {
            Tier::Quick => b"1zA9k0OIl".to_vec(),
            Tier::Thorough => B58.iter().copied().chain(*b"0OIl").collect(),
        };
        for k in 0..a.len() {
            let mut vs: Vec<String> = vec![];
            let mut del = a.clone();
            del.remove(k);
            vs.push(del);
            for c in &ab {
                let mut x = a.clone().into_bytes();
                x[k] = *c;
                vs.push(String::from_utf8(x).unwrap());
            }
            let mut ins = a.clone();
            ins.insert(k, 'z');
            vs.push(ins);
            if k + 1 < a.len() {
                let mut x = a.clone().into_bytes();
                x.swap(k, k + 1);
                vs.push(String::from_utf8(x).unwrap());
            }
            for t in vs {
                rec.case(|| format!("{t:?}"), || ss58_case(&t).map(|h| if h { "edited still an address" } else { "edited declined" }));
            }
        }
        // in context
        for f in ["(@, 1)", "{a: @}", "V(@)", "(é, @)", "@", "(1, (@, true))"] {
            let t = f.replace('@', a);
            rec.case(
                || format!("whole text {t:?}"),
                || {
                    let m = |x: &str| ss58_model(x).map(|(b, n)| Answer::Take(un(b.iter().map(|b| u(*b as u128)).collect()), n));
                    let customs: [ModelParser; 1] = [&m];
                    let mut rd = Rd { text: &t, at: 0, customs: &customs, asked: vec![] };
                    let w = rd.value();
                    step();
                    let (r, rest) = from_str_custom().add_custom_parser(custom_parsers::parse_ss58).parse(&t);
                    match (r, w) {
                        (Ok(v), Ok(w)) if v == w && t.len() - rest.len() == rd.at => Ok("in a larger text"),
                        (Err(_), Err(_)) => Ok("larger text refused"),
                        (r, w) => Err(format!("gives {r:?} leaving {rest:?} instead of {w:?}")),
                    }
                },
            );
        }
    });
    // every first and second prefix byte, every length of the account bytes
    for part in 0..16usize {
        items.push(item(format!("prefixes and lengths {part}"), move |rec: &mut Rec| {
            let label = |hit: bool| if hit { "address taken" } else { "declined" };
            let go = |b: &[u8], rec: &mut Rec| {
                let mut b = b.to_vec();
                let h = ss58_hash(&b);
                b.extend(h);
                let t = b58_encode(&b);
                rec.case(|| format!("{t:?}"), || ss58_case(&t).map(label));
                let n = b.len();
                for k in [n - 1, n - 2, n / 2, 0] {
                    b[k] ^= 1 << (n % 8);
                    let t = b58_encode(&b);
                    rec.case(|| format!("{t:?}"), || ss58_case(&t).map(label));
                    b[k] ^= 1 << (n % 8);
                }
            };
            let account = |n: usize| (0..n).map(|k| (k * 11 + 5) as u8);
            for first in (part..256).step_by(16) {
                for n in 0..rec.tier.pick(72usize, 140) {
                    go(&std::iter::once(first as u8).chain(account(n)).collect::<Vec<u8>>(), rec);
                }
                for second in 0..256usize {
                    for n in [0, 1, 32] {
                        go(&[first as u8, second as u8].into_iter().chain(account(n)).collect::<Vec<u8>>(), rec);
                    }
                }
            }
        }));
        // every character after, before and inside
        items.push(item(format!("characters {part}"), move |rec: &mut Rec| {
            let mut b = vec![42u8];
            b.extend((0..32).map(|k| k as u8 * 7 + 1));
            let h = ss58_hash(&b);
            b.extend(h);
            let a = b58_encode(&b);
            let (l, r) = a.split_at(20);
            for c in (part as u32..0x110000).step_by(16).filter_map(char::from_u32) {
                if rec.tier == Tier::Quick && c as u32 > 0x3100 && c as u32 / 16 % 16 != 0 && !c.is_whitespace() {
                    continue;
                }
                for t in [format!("{a}{c}"), format!("{a}{c}(1)"), format!("{a} {c}"), format!("{c}{a}"), format!("{l}{c}{r}"), format!("{c}{}", &a[1..])] {
                    rec.case(|| format!("{t:?}"), || ss58_case(&t).map(|hit| if hit { "address taken" } else { "declined" }));
                }
            }
        }));
    }
    // every short word over the base58 alphabet (one case per word without its last two letters)
    let n = tier.pick(3, 4);
    for a in 0..58usize {
        items.push(item(format!("all words up to {n} letters starting with {}", B58[a] as char), move |rec: &mut Rec| {
            let mut stack = vec![(B58[a] as char).to_string()];
            loop {
                let Some(p) = stack.pop() else { break };
                if p.len() + 1 >= n {
                    rec.case(
                        || format!("words {p}* and {p}**"),
                        || {
                            let mut any = ss58_case(&p)?;
                            for x in B58 {
                                any |= ss58_case(&format!("{p}{}", *x as char))?;
                            }
                            Ok(if any { "short words, some addresses" } else { "short words" })
                        },
                    );
                } else {
                    for x in B58 {
                        stack.push(format!("{p}{}", *x as char));
                    }
                }
            }
        }));
    }
    // short addresses that are made of digits only, or read true/false/names, with every continuation
    items.push(item("digit words", move |rec: &mut Rec| {
        let n: u32 = rec.tier.pick(6, 7);
        for len in 1..=n {
            let total = 9u64.pow(len - 1);
            for k in 0..total {
                let mut x = k;
                let mut p = String::new();
                for _ in 0..len - 1 {
                    p.push((b'1' + (x % 9) as u8) as char);
                    x /= 9;
                }
                rec.case(
                    || format!("digits {p}*"),
                    || {
                        for d in '1'..='9' {
                            if ss58_case(&format!("{p}{d}"))? {
                                return Err("a number was taken as an address".into());
                            }
                        }
                        Ok("numbers declined")
                    },
                );
            }
        }
    }));
    items.push(item("names that happen to be addresses", move |rec: &mut Rec| {
        // search for short alphabetic-first words that are valid addresses, then follow them by everything
        let mut found = 0;
        'outer: for a in B58.iter().filter(|c| c.is_ascii_alphabetic()) {
            for b in B58 {
                for c in B58 {
                    for d in B58 {
                        let w: String = [*a, *b, *c, *d].iter().map(|x| *x as char).collect();
                        if ss58_model(&w).is_some() {
                            found += 1;
                            for after in AFTER {
                                for f in ["@", "(@)", "{a:@}"] {
                                    let t = f.replace('@', &format!("{w}{after}"));
                                    rec.case(|| format!("{t:?}"), || ss58_case(&t).map(|h| if h { "short address taken" } else { "short address as a name" }));
                                }
                            }
                            if found > rec.tier.pick(12, 100) {
                                break 'outer;
                            }
                        }
                    }
                }
            }
        }
        rec.note("short names that are addresses", found);
    }));
    items
}

// ------------------------------------------------------------------ S09
/// A writer which takes a number of bytes and then fails (taking what still fits of the text it
/// fails on, or nothing of it), and which remembers being used after that.
#[derive(Clone)]
struct Sink(std::rc::Rc<RefCell<(String, usize, bool, bool, bool)>>);
impl Sink {
    fn new(room: usize, part: bool) -> Sink {
        Sink(std::rc::Rc::new(RefCell::new((String::new(), room, part, false, false))))
    }
    fn text(&self) -> String {
        self.0.borrow().0.clone()
    }
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut x = self.0.borrow_mut();
        if x.3 {
            x.4 = true;
            return Err(std::fmt::Error);
        }
        let left = x.1 - x.0.len();
        if s.len() <= left {
            x.0.push_str(s);
            return Ok(());
        }
        x.3 = true;
        if x.2 {
            let mut n = left;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            x.0.push_str(&s[..n]);
        }
        Err(std::fmt::Error)
    }
}
fn s09_check(what: &str, full: &str, room: usize, part: bool, sink: &Sink, r: Result<(), std::fmt::Error>) -> Verdict {
    let (text, _, _, failed, after) = sink.0.borrow().clone();
    if after {
        return Err(format!("{what}: goes on writing after the writer failed at {room}"));
    }
    if failed != (room < full.len()) {
        return Err(format!("{what}: {} bytes asked for instead of {}", if failed { "more than the" } else { "fewer than the" }, full.len()));
    }
    if r.is_err() != failed {
        return Err(format!("{what}: the writer {}, printing says {r:?}", if failed { "failed" } else { "did not fail" }));
    }
    let mut cut = room.min(full.len());
    while !full.is_char_boundary(cut) {
        cut -= 1;
    }
    if part && text != full[..cut] || !full.starts_with(&text) {
        return Err(format!("{what}: wrote {text:?} instead of the first {cut} bytes of {full:?}"));
    }
    Ok(if failed { "writer fails" } else { "writer does not fail" })
}
fn s09_case(v: &V) -> Verdict {
    use std::fmt::Write;
    let nv = number(v);
    let mut label = Ok("writer does not fail");
    for (name, st) in fm_styles() {
        let full = reference_print(&nv, &st);
        let n = full.len();
        let rooms: Vec<usize> = if n <= 160 { (0..=n).collect() } else { (0..20).chain(n / 2 - 10..n / 2 + 10).chain(n - 20..=n).chain([63, 64, 65, 127, 128, 129]).collect() };
        for room in rooms {
            for part in [true, false] {
                let sink = Sink::new(room, part);
                let mut b = to_writer_custom();
                if st.compact {
                    b = b.compact();
                }
                if st.pretty {
                    b = b.pretty();
                }
                b = b.indent_by(st.indent).leading_indent(st.lead);
                if st.context {
                    b = b.format_context(|c: &u32, w: &mut Sink| write!(w, "{c:?}"));
                }
                step();
                let r = b.write(&nv, sink.clone());
                let l = s09_check(name, &full, room, part, &sink, r)?;
                if l == "writer fails" {
                    label = Ok(l);
                }
                if !st.context && (name == "plain" || name == "pretty") && part {
                    let mut sink = Sink::new(room, part);
                    steps(2);
                    let r = if st.pretty { write!(sink, "{v:#}") } else { write!(sink, "{v}") };
                    s09_check("Display", &full, room, part, &sink, r)?;
                    if !st.pretty {
                        let sink = Sink::new(room, part);
                        let r = to_writer(v, sink.clone());
                        s09_check("to_writer", &full, room, part, &sink, r)?;
                    }
                }
            }
        }
    }
    label
}
/// The formatter (or the context's) fails at one node, after writing something or nothing.
fn s09_formatter(v: &V) -> Verdict {
    use std::fmt::Write;
    let nv = number(v);
    let n = crate::d::nodes(v) as u32;
    for (name, st) in fm_styles() {
        for bad in 0..n.min(30) {
            for context_fails in [false, true] {
                if context_fails && !st.context {
                    continue;
                }
                // the text up to the failure: a mark there, and everything from it cut off
                let mut marked = String::new();
                let full = if context_fails {
                    reference_print(&nv, &st)
                } else {
                    reference_print_with(&nv, &st, &mut |x: &Value<u32>| (x.context == bad).then(|| "\u{1}".to_string()))
                };
                let at = if context_fails { full.find(&format!("<{bad}> ")).map(|k| k + 1) } else { full.find('\u{1}') };
                let Some(at) = at else { continue };
                marked.push_str(&full[..at]);
                marked.push_str("??");
                let sink = Sink::new(usize::MAX, true);
                let mut b = to_writer_custom();
                if st.compact {
                    b = b.compact();
                }
                if st.pretty {
                    b = b.pretty();
                }
                b = b.indent_by(st.indent).leading_indent(st.lead);
                if st.context {
                    b = b.format_context(move |c: &u32, w: &mut Sink| {
                        if context_fails && *c == bad {
                            write!(w, "??")?;
                            return Err(std::fmt::Error);
                        }
                        write!(w, "{c:?}")
                    });
                }
                if !context_fails {
                    b = b.add_custom_formatter(|_: &Value<u32>, _: &mut Sink| None);
                    b = b.add_custom_formatter(move |x: &Value<u32>, w: &mut Sink| {
                        (x.context == bad).then(|| {
                            write!(w, "??")?;
                            Err(std::fmt::Error)
                        })
                    });
                    b = b.add_custom_formatter(move |x: &Value<u32>, _: &mut Sink| {
                        assert!(x.context != bad, "the next formatter was asked after one failed");
                        None
                    });
                }
                step();
                if b.write(&nv, sink.clone()).is_ok() {
                    return Err(format!("{name}: a formatter failed at node {bad}, but printing succeeded"));
                }
                if sink.text() != marked {
                    return Err(format!("{name}: a formatter failed at node {bad}; written {:?} instead of {marked:?}", sink.text()));
                }
            }
        }
    }
    Ok("formatter fails")
}
pub fn s09(tier: Tier) -> Vec<Item> {
    let mut items = spread("values", 24, printable, |v, rec| rec.case(|| format!("writer failing everywhere: {}", showv(v)), || s09_case(v)));
    items.extend(sized_values(tier, |v, rec| {
        if crate::d::nodes(v) > 1 && (rec.tier == Tier::Thorough || crate::d::nodes(v) % 7 == 3) {
            rec.case(|| format!("writer failing everywhere: {}", showv(v)), || s09_case(v));
        }
    }));
    items.extend(spread("formatters", 16, s06_values, |v, rec| rec.case(|| format!("formatter failing: {}", showv(v)), || s09_formatter(v))));
    items.push(item("hex formatter", |rec| {
        for n in 1..rec.tier.pick(80usize, 300) {
            for part in [false, true] {
                for room in 0..=2 + 2 * n {
                    rec.case(
                        || format!("hex of {n} bytes, room for {room}"),
                        || {
                            let v = un((0..n).map(|k| u((k * 37 % 256) as u128)).collect());
                            let full = hex_upper(&bytes_list(&v).unwrap());
                            let sink = Sink::new(room, part);
                            step();
                            match custom_formatters::format_hex(&v, sink.clone()) {
                                Some(r) => s09_check("format_hex", &full, room, part, &sink, r),
                                None => Err("declined".into()),
                            }
                        },
                    );
                }
            }
        }
    }));
    items
}
