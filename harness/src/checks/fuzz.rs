//! Inputs of every kind, wanted or not (C21), and the feature
//! configurations (C26).

use super::*;
use crate::api::K;
use crate::checks::text::{any_schema, Syn};
use crate::gen::mutate;
use crate::val::*;
use cddl_cat::ast as A;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::ivt::{RuleDef, RulesByName};
use cddl_cat::ValidateError;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// -------------------------------------------------------------------- C21

pub const C21: Prop = Prop {
    id: "C21",
    rule: "schema texts: valid ones, valid ones damaged (characters and tokens deleted, inserted, replaced, doubled, swapped, cut), \
splices of two, token soup and random characters; with rule names of the text and others, and data bytes that are valid, damaged, \
random or deeply nested, and now and then controls and ranges with limits of any size and fitting data: every entry point returns without a panic, the four parsing interfaces agree on whether the text parses \
and on the kind of any other error, a parse error is reported exactly for text that does not parse, data that cannot be decoded is \
reported as such when the schema is in order, and every error and every rule can be displayed; syntax trees built by hand, with \
empty and inconsistent parts, are flattened and used in the same way. Non-trivial: a text that is damaged and still parses, or a \
damaged one of more than 20 characters that does not; distinct by text.",
    fixed: 8,
    quick: 400_000,
    thorough: 8_000_000,
    budget: 400_000_000,
    f: c21,
};

const TOKENS: &[&str] = &[
    "=", "/=", "//=", "/", "//", ":", "=>", "^", "^ =>", "?", "*", "+", "1*2", "*5", "3*", "..", "...", "(", ")", "[", "]", "{", "}",
    "<", ">", "~", "&", "#", "#6.1(", "#7.25", ".size", ".lt", ".le", ".gt", ".ge", ".regexp", ".cbor", ".eq", ".and", "int", "tstr",
    "bstr", "any", "time", "uint", "float", "null", "true", "a", "b", "foo", "T", "0", "1", "-1", "18446744073709551615",
    "18446744073709551616", "-9223372036854775808", "0x", "0xff", "0b2", "0b1", "1.5", "1e5", "1.5e309", "\"", "\"a\"", "'", "'a'", "h'",
    "h'ff'", "h'f'", "b64'", "b64'AA'", "b64'A'", "\\", "\\u", "\\u{", "\\ud800", "\\n", ";", "; c\n", "\n", "\r\n", "\t", " ", ",", "@",
    "$", "$$a", "_", ".", "-", "é", "\u{0}", "\u{10ffff}", "\u{feff}", "x =", "\nx = ", "<T>", "a<int>: int", "<int, tstr>:", "<int, tstr, bool>: ", "<int, 1, \"a\", nil>", "<a<b>, c>", "a.b", "--", "\"\\\"\"", "'\\''",
];

/// Damage a text.
pub fn damage(s: &mut Src, t: &mut String, other: &str) {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.weighted(&[50, 25, 15, 10]) {
        let n = cs.len();
        let at = s.us(n + 1);
        match s.us(11) {
            0 if at < n => {
                cs.remove(at);
            }
            1 => cs.insert(at, s.pick(TOKENS).chars().next().unwrap()),
            2 | 3 => {
                let x: Vec<char> = s.pick(TOKENS).chars().collect();
                cs.splice(at..at, x);
            }
            4 if at < n => cs[at] = gen_char(s),
            5 => {
                let to = (at + s.size(40)).min(n);
                cs.drain(at..to);
            }
            6 => {
                let to = (at + s.size(40)).min(n);
                let x: Vec<char> = cs[at..to].to_vec();
                cs.splice(at..at, x);
            }
            7 => cs.truncate(at),
            8 => {
                cs.drain(..at);
            }
            9 => {
                let o: Vec<char> = other.chars().collect();
                let k = s.us(o.len() + 1);
                let to = (k + s.size(60)).min(o.len());
                cs.splice(at..at, o[k..to].to_vec());
            }
            _ if n > 1 => {
                let b = s.us(n);
                cs.swap(at.min(n - 1), b);
            }
            _ => {}
        }
    }
    *t = cs.into_iter().collect();
}

/// How deeply parentheses nest, at most, whatever else they are part of.
fn parens(t: &str) -> usize {
    let (mut d, mut m) = (0usize, 0);
    for c in t.chars() {
        match c {
            '(' => {
                d += 1;
                m = m.max(d)
            }
            ')' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}

/// Gives up, with an error, after a number of lookups.
struct Soft<'a>(&'a BasicContext, Cell<u32>);

impl LookupContext for Soft<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        if self.1.get() == 0 {
            return Err(ValidateError::ValueError("enough".into()));
        }
        self.1.set(self.1.get() - 1);
        self.0.lookup_rule(name)
    }
}

/// Some data: its bytes, as CBOR or JSON.
fn data(s: &mut Src, json: bool) -> Vec<u8> {
    let v = if json { gen_json_value(s, 2) } else { gen_value(s, 3) };
    let mut b = if json { v.json_alt(s).into_bytes() } else { v.cbor_alt(s) };
    match s.us(5) {
        0 | 1 => {}
        2 => {
            for _ in 0..1 + s.us(3) {
                let n = b.len();
                match s.us(4) {
                    0 if n > 0 => {
                        let i = s.us(n);
                        b[i] = s.byte()
                    }
                    1 => b.truncate(s.us(n + 1)),
                    2 => b.insert(s.us(n + 1), s.byte()),
                    _ if n > 0 => {
                        let i = s.us(n);
                        b[i] ^= 1 << s.us(8)
                    }
                    _ => {}
                }
            }
        }
        3 => b = (0..s.size(60)).map(|_| s.byte()).collect(),
        _ => {
            let d = *s.pick(&[10, 100, 126, 127, 128, 129, 250, 256, 257, 300, 2000]);
            b = if json {
                let (o, c) = *s.pick(&[("[", "]"), ("{\"a\":", "}")]);
                format!("{}1{}", o.repeat(d), c.repeat(d)).into_bytes()
            } else {
                let mut x = vec![];
                let k = s.us(3);
                for _ in 0..d {
                    x.extend_from_slice([&[0x81][..], &[0xa1, 0x01], &[0x9f]][k]);
                }
                x.push(0);
                if k == 2 {
                    x.extend(vec![0xff; d]);
                }
                x
            };
        }
    }
    b
}

type Res<T> = Result<Result<T, ValidateError>, String>;

fn kind<T>(r: &Res<T>) -> Result<Option<K>, String> {
    match r {
        Err(p) => Err(format!("panic: {}", p)),
        Ok(Ok(_)) => Ok(None),
        Ok(Err(e)) => {
            let k = match e {
                ValidateError::ParseError(_) => K::Parse,
                ValidateError::Structural(_) => K::Structural,
                ValidateError::MissingRule(_) => K::MissingRule,
                ValidateError::Unsupported(_) => K::Unsupported,
                ValidateError::ValueError(_) => K::Value,
                ValidateError::GenericError => K::Generic,
                ValidateError::Mismatch(_) | ValidateError::MapCut(_) => return Err("a mismatch without data".into()),
                _ => K::Other,
            };
            let mut o = String::new();
            match api::guard(|| write!(o, "{} {:?}", e, e)) {
                Ok(Ok(())) => Ok(Some(k)),
                x => Err(format!("the error cannot be shown: {:?}", x)),
            }
        }
    }
}

/// Show every rule.
fn display(r: &RulesByName) -> Result<(), String> {
    api::guard(|| {
        let mut n = 0;
        for (k, d) in r {
            n += format!("{} {} {:?}", k, d.node, d).len();
        }
        n
    })
    .map(|_| ())
    .map_err(|e| format!("a rule cannot be shown: {}", e))
}

fn c21(s: &mut Src, c: &mut Case) -> Out {
    if let Some(i) = c.fixed {
        return c21_fixed(i, c);
    }
    if s.pct(20) {
        return hand_built(s, c);
    }
    // now and then controls and ranges with limits of any size, and fitting data
    let one = if s.pct(12) { super::scalar::one(s, c) } else { None };
    let mut own = None;
    let sch = match one {
        Some((t, v, extra)) => {
            let mut r = vec![Rule { name: "top".into(), params: vec![], val: RV::T(Type(vec![t])) }];
            r.extend(extra);
            own = Some(v);
            c.label("control or range");
            Schema(r)
        }
        None => any_schema(s).0,
    };
    let mut text = if s.bool() { sch.text() } else { sch.text_alt(s, true).0 };
    let mut names: Vec<String> = sch.0.iter().map(|r| r.name.clone()).collect();
    names.push((*s.pick(&["", "int", "x", "foo", "T", "\u{0}", "nope"])).into());
    let how = if own.is_some() && s.pct(70) { 0 } else { s.weighted(&[12, 63, 15, 10]) };
    match how {
        0 => c.label("valid text"),
        1 => {
            let (o, _) = any_schema(s);
            let o = o.text();
            damage(s, &mut text, &o);
            c.label("damaged text");
        }
        2 => {
            text.clear();
            if s.bool() {
                text.push_str("x = ");
            }
            for _ in 0..s.size(60) {
                text.push_str(s.pick(TOKENS));
                if s.pct(40) {
                    text.push(' ');
                }
            }
            c.label("token soup");
        }
        _ => {
            text = (0..s.size(100)).map(|_| gen_char(s)).collect();
            if s.bool() {
                text.insert_str(0, "x = ");
            }
            c.label("random characters");
        }
    }
    if parens(&text) > 9 {
        return Out::Discard;
    }
    let fail = |m: String| Out::Fail(format!("text: {:?}\n{}", text, m));
    c.execs += 4;
    // parsing
    let p1: Res<A::Cddl> = api::guard(|| cddl_cat::parse_cddl(&text).map_err(ValidateError::from));
    let p2: Res<A::CddlSlice> = api::guard(|| cddl_cat::parser::slice_parse_cddl(&text).map_err(ValidateError::from));
    let f1: Res<RulesByName> = api::guard(|| cddl_cat::flatten::flatten_from_str(&text));
    let f2 = api::guard(|| cddl_cat::flatten::slice_flatten_from_str(&text));
    let ks = (|| Ok::<_, String>([kind(&p1)?, kind(&p2)?, kind(&f1)?, kind(&f2)?]))();
    let ks = match ks {
        Ok(k) => k,
        Err(m) => return fail(m),
    };
    let parses = ks[0].is_none();
    let bad = ks[0].is_some_and(|k| k != K::Parse)
        || ks[1] != ks[0]
        || (ks[2] == Some(K::Parse)) != (ks[0] == Some(K::Parse))
        || ks[3] != ks[2]
        || [Some(K::Other), Some(K::Value)].contains(&ks[2]);
    if bad {
        return fail(format!("parse, slice_parse, flatten, slice_flatten: {:?}", ks));
    }
    if let (Ok(Ok(a)), Ok(Ok(b))) = (&p1, &p2) {
        if a.rules.len() != b.rules.len() || a.rules.iter().zip(&b.rules).any(|(x, y)| *x != y.0) {
            return fail("slice parsing gives other rules".into());
        }
        // every rule can be named
        for r in a.rules.iter().take(4) {
            if !names.contains(&r.name) {
                names.push(r.name.clone());
            }
        }
        let k = match kind(&api::guard(|| cddl_cat::flatten::flatten(a))) {
            Ok(k) => k,
            Err(m) => return fail(m),
        };
        if k != ks[2] {
            return fail(format!("flattening the text: {:?}, the tree: {:?}", ks[2], k));
        }
    }
    let ctx = match f1 {
        Ok(Ok(r)) => {
            if let Err(m) = display(&r) {
                return fail(m);
            }
            Some(BasicContext::new(r))
        }
        _ => None,
    };
    for _ in 0..2 {
        let mut rule = s.pick(&names).clone();
        let mut json = s.bool();
        let bytes = match own.take() {
            Some(v) => {
                rule = "top".into();
                json &= v.json_ok();
                if json {
                    v.json_alt(s).into_bytes()
                } else {
                    v.cbor_alt(s)
                }
            }
            None => data(s, json),
        };
        let js = String::from_utf8_lossy(&bytes).into_owned();
        // leave out what takes too long
        if let Some(cx) = &ctx {
            let soft = Soft(cx, Cell::new(3000));
            if let Ok(def) = cx.lookup_rule(&rule) {
                if json {
                    if let Ok(v) = serde_json::from_str::<serde_json::Value>(&js) {
                        let _ = api::guard(|| cddl_cat::validate_json(def, &v, &soft).is_ok());
                    }
                } else if let Ok(v) = ciborium::from_reader::<ciborium::Value, _>(&bytes[..]) {
                    let _ = api::guard(|| cddl_cat::validate_cbor(def, &v, &soft).is_ok());
                }
            }
            if soft.1.get() == 0 {
                c.label("too wasteful");
                continue;
            }
        }
        c.execs += 1;
        let got = if json { api::json_str(&rule, &text, &js) } else { api::cbor_bytes(&rule, &text, &bytes) };
        let ok_data = if json { serde_json::from_str::<serde_json::Value>(&js).is_ok() } else { decode_cbor(&bytes).is_ok() };
        let fine = match &got {
            Y::P(_) | Y::Err(K::Other) => false,
            y if !parses => *y == Y::Err(K::Parse),
            y if ks[2].is_some() => *y == Y::Err(ks[2].unwrap()),
            Y::Err(K::Parse) => false,
            y if ctx.as_ref().is_some_and(|x| !x.rules.contains_key(&rule)) => {
                *y == Y::Err(K::MissingRule) || (!ok_data && *y == Y::Err(K::Value))
            }
            y if !ok_data && json => matches!(y, Y::Err(K::Value | K::MissingRule)),
            _ => true,
        };
        if !fine {
            let d = if json { js } else { crate::sch::hex(&bytes) };
            return fail(format!("rule {:?}, data {}: got {:?}; the text alone: {:?}", rule, d, got, ks));
        }
    }
    c.label(match ks[2] {
        None => "usable",
        Some(K::Parse) => "parse error",
        _ => "other schema error",
    });
    if how > 0 && (parses || text.len() > 20) {
        c.nontrivial(&text);
        c.sample(|| format!("{:?} -> {:?}", text, ks));
    }
    Out::Pass
}

// ---------------------------------------------------- trees built by hand

fn odd_t2(s: &mut Src, t: &mut A::Type2, d: usize) {
    let empty = || A::Group(vec![]);
    if s.pct(12) {
        let ng = |s: &mut Src| A::NameGeneric {
            name: (*s.pick(&["", "a", "int", "x0", " ", "T", "=", "any", "time"])).into(),
            generic_args: if s.pct(20) { vec![A::Type1::Simple(A::Type2::Parethesized(A::Type(vec![])))] } else { vec![] },
        };
        *t = match s.us(13) {
            0 => A::Type2::Parethesized(A::Type(vec![])),
            1 => A::Type2::Map(empty()),
            2 => A::Type2::Array(empty()),
            3 => A::Type2::Array(A::Group(vec![A::GrpChoice(vec![])])),
            4 => A::Type2::ChoiceifyInline(empty()),
            5 => A::Type2::ChoiceifyInline(A::Group(vec![A::GrpChoice(vec![]), A::GrpChoice(vec![])])),
            6 => A::Type2::Typename(ng(s)),
            7 => A::Type2::Unwrap(ng(s)),
            8 => A::Type2::Choiceify(ng(s)),
            9 => A::Type2::Value(A::Value::Nint(*s.pick(&[0, 5, i64::MIN, i64::MAX]))),
            10 => A::Type2::Value(A::Value::Float(*s.pick(&[f64::NAN, f64::INFINITY, -0.0]))),
            11 => A::Type2::Map(A::Group(vec![A::GrpChoice(vec![]), A::GrpChoice(vec![])])),
            _ => A::Type2::Value(A::Value::Uint(u64::MAX)),
        };
        return;
    }
    if d == 0 {
        return;
    }
    match t {
        A::Type2::Parethesized(t) => odd_ty(s, t, d - 1),
        A::Type2::Map(g) | A::Type2::Array(g) | A::Type2::ChoiceifyInline(g) => odd_group(s, g, d - 1),
        A::Type2::Typename(n) | A::Type2::Unwrap(n) | A::Type2::Choiceify(n) => {
            for a in n.generic_args.iter_mut() {
                odd_t1(s, a, d - 1);
            }
        }
        A::Type2::Value(_) => {}
    }
}

fn odd_t1(s: &mut Src, t: &mut A::Type1, d: usize) {
    match t {
        A::Type1::Simple(x) => odd_t2(s, x, d),
        A::Type1::Range(r) => {
            odd_t2(s, &mut r.start, d);
            odd_t2(s, &mut r.end, d);
        }
        A::Type1::Control(x) => {
            odd_t2(s, &mut x.target, d);
            odd_t2(s, &mut x.arg, d);
            if s.pct(20) {
                x.op = (*s.pick(&["", "size", "cbor", "regexp", "lt", ".size"])).into();
            }
        }
    }
}

fn odd_ty(s: &mut Src, t: &mut A::Type, d: usize) {
    if s.pct(5) {
        t.0.clear();
    }
    for x in t.0.iter_mut() {
        odd_t1(s, x, d);
    }
}

fn odd_group(s: &mut Src, g: &mut A::Group, d: usize) {
    if s.pct(5) {
        g.0.push(A::GrpChoice(vec![]));
    }
    for x in g.0.iter_mut().flat_map(|c| c.0.iter_mut()) {
        odd_ent(s, x, d);
    }
}

fn odd_ent(s: &mut Src, e: &mut A::GrpEnt, d: usize) {
    if s.pct(15) {
        e.occur = match s.us(6) {
            0 => None,
            1 => Some(A::Occur::Numbered(5, 2)),
            2 => Some(A::Occur::Numbered(0, 0)),
            3 => Some(A::Occur::Numbered(usize::MAX, usize::MAX)),
            4 => Some(A::Occur::Numbered(usize::MAX, 0)),
            _ => Some(A::Occur::Optional),
        };
    }
    match &mut e.val {
        A::GrpEntVal::Member(m) => {
            if s.pct(8) {
                m.key = Some(A::MemberKey {
                    val: match s.us(3) {
                        0 => A::MemberKeyVal::Bareword(String::new()),
                        1 => A::MemberKeyVal::Value(A::Value::Float(f64::NAN)),
                        _ => A::MemberKeyVal::Type1(A::Type1::Simple(A::Type2::Parethesized(A::Type(vec![])))),
                    },
                    cut: s.bool(),
                });
            }
            if let Some(A::MemberKey { val: A::MemberKeyVal::Type1(t), .. }) = &mut m.key {
                odd_t1(s, t, d);
            }
            odd_ty(s, &mut m.value, d);
        }
        A::GrpEntVal::Parenthesized(g) => odd_group(s, g, d.saturating_sub(1)),
        A::GrpEntVal::Groupname(_) => {}
    }
    if s.pct(8) {
        e.val = match s.us(3) {
            0 => A::GrpEntVal::Groupname((*s.pick(&["", "a", "int", "x0", "time"])).into()),
            1 => A::GrpEntVal::Parenthesized(A::Group(vec![])),
            _ => A::GrpEntVal::Parenthesized(A::Group(vec![A::GrpChoice(vec![])])),
        };
    }
}

fn hand_built(s: &mut Src, c: &mut Case) -> Out {
    c.label("tree built by hand");
    let syn = s.bool();
    let sch = if syn { Syn::new(40).schema(s) } else { gen::schema(s, &Cfg { rules: 4, depth: 3, ..Cfg::default() }) };
    let mut a = a_schema(&sch);
    for r in a.rules.iter_mut() {
        match &mut r.val {
            A::RuleVal::AssignType(t) => odd_ty(s, t, 5),
            A::RuleVal::AssignGroup(e) => odd_ent(s, e, 5),
        }
    }
    let fail = |m: String| Out::Fail(format!("tree: {:?}\n{}", a, m));
    c.execs += 1;
    let f = api::guard(|| cddl_cat::flatten::flatten(&a));
    let k = match kind(&f) {
        Ok(k) => k,
        Err(m) => return fail(m),
    };
    if [Some(K::Other), Some(K::Parse), Some(K::Value)].contains(&k) {
        return fail(format!("flattening: {:?}", k));
    }
    c.nontrivial(&format!("{:?}", a));
    let Ok(Ok(rules)) = f else {
        c.label("tree refused");
        return Out::Pass;
    };
    if let Err(m) = display(&rules) {
        return fail(m);
    }
    c.label("tree flattened");
    let ctx = BasicContext::new(rules);
    for _ in 0..2 {
        let rule = &sch.0[s.us(sch.0.len())].name;
        let mut v = if syn { gen_value(s, 3) } else { gen::value_for(s, &sch, false).0 };
        if s.bool() {
            mutate(s, &mut v, false);
        }
        let Some(def) = ctx.rules.get(rule) else { continue };
        let soft = Soft(&ctx, Cell::new(3000));
        let d = v.to_ciborium();
        c.execs += 1;
        let y = api::y(api::guard(|| cddl_cat::validate_cbor(def, &d, &soft)));
        if matches!(y, Y::P(_) | Y::Err(K::Other | K::Parse)) {
            return fail(format!("rule {}, value {}: {:?}", rule, v.show(), y));
        }
    }
    Out::Pass
}

fn c21_fixed(i: u64, c: &mut Case) -> Out {
    const B: [(&str, &str); 6] = [("[", "]"), ("{a: ", "}"), ("(", ")"), ("g<", ">"), ("&(a: ", ")"), ("[? ", "]")];
    if i < 6 {
        // nesting of a few hundred brackets needs no more than a usual stack
        let (o, z) = B[i as usize];
        let text = format!("x = {}int{}\ng<T> = T\n", o.repeat(300), z.repeat(300));
        let t2 = text.clone();
        let r = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                api::guard(|| (cddl_cat::parse_cddl(&t2).is_ok(), cddl_cat::flatten::flatten_from_str(&t2).is_ok()))
            })
            .unwrap()
            .join()
            .unwrap();
        c.label("300 brackets");
        c.nontrivial(&text);
        return match r {
            Ok((true, true)) => Out::Pass,
            r => Out::Fail(format!("300 times {}: {:?}", o, r)),
        };
    }
    if i == 6 {
        // data of any depth a decoder lets through
        for d in [100, 126, 250, 300, 2000] {
            let mut v = V::Int(1);
            let mut j = V::Int(1);
            for k in 0..d {
                v = if k % 2 == 0 { V::Arr(vec![v]) } else { V::Map(vec![(V::Int(1), v)]) };
                j = V::Arr(vec![j]);
            }
            for (v, json) in [(&v, false), (&j, true)] {
                let text = "x = any\n";
                let ctx = api::context(text).ok().unwrap();
                let y = if json { api::ctx_json("x", &ctx, v) } else { api::ctx_cbor("x", &ctx, v) };
                if y != Y::Ok {
                    return Out::Fail(format!("data {} deep against any: {:?}", d, y));
                }
            }
            let y = api::cbor_bytes("x", "x = any\n", &v.cbor());
            if !(y == Y::Ok || (d > 200 && y == Y::Err(K::Value))) {
                return Out::Fail(format!("CBOR bytes {} deep against any: {:?}", d, y));
            }
            let y = api::json_str("x", "x = any\n", &j.json());
            if !(y == Y::Ok || (d > 120 && y == Y::Err(K::Value))) {
                return Out::Fail(format!("JSON {} deep against any: {:?}", d, y));
            }
            c.execs += 4;
        }
        c.label("deep data");
        c.nontrivial("deep data");
        return Out::Pass;
    }
    // very deep nesting, in a process of its own
    c.label("very deep brackets");
    let st = Command::new(std::env::current_exe().unwrap())
        .arg("deep")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap();
    if st.success() {
        return Out::Pass;
    }
    Out::Known(
        "deep-brackets",
        "parsing a schema of 200000 opening brackets overflows the stack and ends the process".into(),
    )
}

/// Child process: parse a very deep schema.
pub fn deep() -> i32 {
    let t = format!("x = {}", "[".repeat(200_000));
    let r = cddl_cat::parse_cddl(&t);
    if r.is_err() {
        0
    } else {
        1
    }
}

// -------------------------------------------------------------------- C26

pub const C26: Prop = Prop {
    id: "C26",
    rule: "a random schema and value, or a range, comparison, size or regexp with values at its limits in random surroundings, run under the default features and in separately built programs with only JSON, only CBOR and \
neither: same verdict or kind of error where the entry point exists, same result of preparing the schema everywhere; without CBOR, a \
schema that uses .cbor must give what it gives with that operator replaced by an error, reported as unsupported. Non-trivial: the \
verdict is a match or a mismatch, or the replaced operator is reached; distinct by schema and value.",
    fixed: 0,
    quick: 96_000,
    thorough: 1_500_000,
    budget: 60_000_000,
    f: c26,
};

struct Peer {
    _child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}

thread_local! {
    static PEERS: RefCell<[Option<Peer>; 3]> = const { RefCell::new([None, None, None]) };
}

const CONFIG: [&str; 3] = ["json", "cbor", "none"];

/// Ask the program built with features `k`.
fn ask(k: usize, op: &str, rule: &str, text: &str, data: &[u8]) -> String {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        let peer = p[k].get_or_insert_with(|| {
            let root = std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into());
            let exe = format!("{}/features/target/release/vh-{}", root, CONFIG[k]);
            let mut c = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            Peer { _child: c, i, o }
        });
        let line = format!("{} {} {} {}\n", op, hex0(rule.as_bytes()), hex0(text.as_bytes()), hex0(data));
        let mut r = String::new();
        if peer.i.write_all(line.as_bytes()).is_err() || peer.o.read_line(&mut r).is_err() || r.is_empty() {
            p[k] = None;
            return "the process died".into();
        }
        r.trim().to_string()
    })
}

fn hex0(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        crate::sch::hex(b)
    }
}

fn letter(y: &Y) -> String {
    match y {
        Y::Ok => "ok".into(),
        Y::No => "no".into(),
        Y::Err(k) => format!("{:?}", k),
        Y::P(_) => "panic".into(),
    }
}

/// Put an error (a range to a name that is not defined), which shows when a
/// value is held against it, in the place of every `.cbor` type.
fn cut_cbor(v: &RV) -> RV {
    fn t2(t: &T2) -> T2 {
        match t {
            T2::Lit(_) => t.clone(),
            T2::Name(n, a) => T2::Name(n.clone(), a.iter().map(t1).collect()),
            T2::Unwrap(n, a) => T2::Unwrap(n.clone(), a.iter().map(t1).collect()),
            T2::Amp(n, a) => T2::Amp(n.clone(), a.iter().map(t1).collect()),
            T2::Paren(t) => T2::Paren(ty_(t)),
            T2::Map(g) => T2::Map(gr(g)),
            T2::Arr(g) => T2::Arr(gr(g)),
            T2::AmpInline(g) => T2::AmpInline(gr(g)),
        }
    }
    fn t1(t: &T1) -> T1 {
        match t {
            T1::S(x) => T1::S(t2(x)),
            T1::Range(a, i, b) => T1::Range(t2(a), *i, t2(b)),
            T1::Ctl(_, op, _) if op == "cbor" => T1::Range(T2::Lit(Lit::Int(0)), true, T2::Name("no-cbor-here".into(), vec![])),
            T1::Ctl(a, op, b) => T1::Ctl(t2(a), op.clone(), t2(b)),
        }
    }
    fn ty_(t: &Type) -> Type {
        Type(t.0.iter().map(t1).collect())
    }
    fn gr(g: &Group) -> Group {
        Group(g.0.iter().map(|c| c.iter().map(en).collect()).collect())
    }
    fn en(e: &Ent) -> Ent {
        Ent {
            occ: e.occ,
            val: match &e.val {
                EV::P(g) => EV::P(gr(g)),
                EV::M(k, t) => EV::M(
                    k.as_ref().map(|k| match k {
                        Key::Ty(t, c) => Key::Ty(t1(t), *c),
                        k => k.clone(),
                    }),
                    ty_(t),
                ),
            },
        }
    }
    match v {
        RV::T(t) => RV::T(ty_(t)),
        RV::G(e) => RV::G(en(e)),
    }
}

fn c26(s: &mut Src, c: &mut Case) -> Out {
    let syn = s.pct(12);
    let json = s.pct(60);
    let cfg = Cfg { json: json && s.pct(60), fatal: if s.pct(15) { 8 } else { 0 }, ctl: if s.pct(40) { 30 } else { 6 }, ..Cfg::default() };
    let mut given = None;
    let sch = if syn {
        Syn::new(40).schema(s)
    } else if s.pct(25) {
        // ranges, comparisons, sizes and regexps with the values that matter for them
        let Some((t, v, rules)) = super::scalar::one(s, c) else { return Out::Discard };
        let mut w = gen::Wrap::new(t, v);
        w.rules = rules;
        for _ in 0..s.us(3) {
            w.add(s, json);
        }
        given = Some(w.v.clone());
        w.schema("top")
    } else {
        gen::schema(s, &cfg)
    };
    let mut text = if s.pct(30) { sch.text_alt(s, true).0 } else { sch.text() };
    if syn && s.bool() {
        let o = sch.text();
        damage(s, &mut text, &o);
        if parens(&text) > 9 {
            return Out::Discard;
        }
    }
    // preparing the schema
    c.execs += 4;
    let prep = match api::context(&text) {
        Ok(_) => "ok".to_string(),
        Err(e) => letter(&e),
    };
    for k in 0..3 {
        let got = ask(k, "F", "", &text, &[]);
        if got != prep || prep == "panic" {
            return Out::Fail(format!("schema:\n{}\npreparing it: {}; with features {}: {}", text, prep, CONFIG[k], got));
        }
    }
    if syn {
        c.label("syntax only");
        return Out::Pass;
    }
    let rule = &sch.0[0].name;
    let v = match given {
        Some(v) => v,
        None => gen::value_for(s, &sch, json).0,
    };
    let json = json && v.json_ok();
    if heavy(&sch, rule, &v) {
        return Out::Discard;
    }
    let (op, bytes, full) = if json {
        let j = v.json_alt(s);
        let y = api::json_str(rule, &text, &j);
        ("J", j.into_bytes(), y)
    } else {
        let b = v.cbor_alt(s);
        let y = api::cbor_bytes(rule, &text, &b);
        ("C", b, y)
    };
    if matches!(full, Y::P(_)) {
        return Out::Fail(format!("{}\n{:?}", show(&text, rule, &v), full));
    }
    c.execs += 2;
    let k = if json { 0 } else { 1 };
    let got = ask(k, op, rule, &text, &bytes);
    let mut want = letter(&full);
    let cbor = json && text.contains(".cbor");
    if cbor {
        let alt = Schema(
            sch.0.iter().map(|r| Rule { name: r.name.clone(), params: r.params.clone(), val: cut_cbor(&r.val) }).collect(),
        );
        let y = api::json_str(rule, &alt.text(), &v.json());
        if alt != sch && y == Y::Err(K::MissingRule) && !sch.text().contains("no-such-rule") {
            c.label("unsupported operator reached");
            want = "Unsupported".into();
        } else if sch.text().contains("no-such-rule") {
            return Out::Discard;
        } else {
            c.label("unsupported operator not reached");
            if y != full {
                return Out::Discard;
            }
        }
    }
    if got != want {
        return Out::Fail(format!("{}\ndefault features: {:?}; expected with only {}: {}, got {}", show(&text, rule, &v), full, CONFIG[k], want, got));
    }
    c.label(if json { "JSON" } else { "CBOR" });
    c.label(match full {
        Y::Ok => "match",
        Y::No => "mismatch",
        _ => "error",
    });
    if matches!(full, Y::Ok | Y::No) || cbor {
        c.nontrivial(&(text.as_str(), v.show(), json));
        c.sample(|| format!("{} -> {} ({})", show(&text, rule, &v), got, CONFIG[k]));
    }
    Out::Pass
}
