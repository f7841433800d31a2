//! Encodings: the verdict depends on the data, not on how it was written.

use super::*;
use crate::api::K;
use crate::val::*;
use std::convert::TryFrom;

pub const C16: Prop = Prop {
    id: "C16",
    rule: "random schema and a value that JSON can express; the four ways in (CBOR bytes, JSON text, parsed CBOR value, parsed \
JSON value) must give one verdict, that of the reference model; conversion of both parsed forms to the crate's own value type \
must agree. Non-trivial: the value has a container or came from the schema; distinct by schema and value.",
    fixed: 0,
    quick: 150_000,
    thorough: 4_000_000,
    budget: 20_000_000,
    f: c16,
};

/// Both zeros, and numbers on the edge of a kind.
fn c16_numbers(s: &mut Src, c: &mut Case) -> Out {
    let num = |s: &mut Src| match s.us(4) {
        0 => V::Float(-0.0),
        1 => V::Float(0.0),
        2 => V::Int(*s.pick(&[0, -1, 1, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i64::MAX as i128 + 1, 1 << 53, (1 << 53) + 1])),
        _ => V::Float(*s.pick(&[1.0, -1.0, 9007199254740992.0, 9007199254740994.0, 18446744073709551616.0, 9223372036854775808.0, -9223372036854775808.0, 0.1, 5e-324, 2.2250738585072014e-308])),
    };
    let v = match s.us(3) {
        0 => num(s),
        1 => V::Arr(vec![num(s), num(s)]),
        _ => V::Map(vec![(t("a"), num(s))]),
    };
    if !v.json_ok() {
        return Out::Discard;
    }
    let ts = &[
        "0.0", "-0.0", "0", "int", "uint", "nint", "float", "-1.0..0.0", "-1.0...0.0", "-1.0..-0.0", "0.0..1.0", "-0.0..1.0", "0..9", "-9..0",
        "float / int", "9007199254740993", "18446744073709551615", "-9223372036854775808", "1.0", "1", "9007199254740992.0", "uint .size 8", "int .lt 9223372036854775808",
        "int .gt -9223372036854775808", "0.1", "5e-324",
    ];
    let text = match &v {
        V::Arr(_) => format!("x = [{}, {}]\n", s.pick(ts), s.pick(ts)),
        V::Map(_) => format!("x = {{a: {}}}\n", s.pick(ts)),
        _ => format!("x = {}\n", s.pick(ts)),
    };
    let ys: Vec<(Path, Y)> =
        [Path::CborBytes, Path::JsonStr, Path::CborCtx, Path::JsonCtx].iter().map(|p| (*p, api::run(*p, "x", &text, &v))).collect();
    c.execs += 4;
    if ys.iter().any(|y| y.1 != ys[0].1 || matches!(y.1, Y::P(_))) {
        return Out::Fail(format!("{}\nverdicts {:?}", show(&text, "x", &v), ys));
    }
    let (cv, jv) = (v.to_ciborium(), v.to_serde_json());
    let a = api::guard(|| cddl_cat::value::Value::try_from(&cv));
    let b = api::guard(|| cddl_cat::value::Value::try_from(&jv));
    match (&a, &b) {
        (Ok(Ok(a)), Ok(Ok(b))) if a == b && *a == v.to_cat() => {}
        _ => return Out::Fail(format!("value {}: from CBOR {:?}, from JSON {:?}", v.show(), a, b)),
    }
    c.label("numbers");
    c.nontrivial(&(text.as_str(), v.show()));
    Out::Pass
}

fn c16(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(2) {
        return super::large::encodings(s, c, true);
    }
    if s.pct(4) {
        return c16_numbers(s, c);
    }
    let cfg = Cfg { json: s.pct(80), rules: 5, depth: 3, ..Cfg::default() };
    let sch = crate::gen::schema(s, &cfg);
    let (v, how) = crate::gen::value_for(s, &sch, true);
    if !v.json_ok() {
        return Out::Discard;
    }
    let text = sch.text();
    let rule = &sch.0[0].name;
    if heavy(&sch, rule, &v) {
        return Out::Discard;
    }
    let ys: Vec<(Path, Y)> =
        [Path::CborBytes, Path::JsonStr, Path::CborCtx, Path::JsonCtx].iter().map(|p| (*p, api::run(*p, rule, &text, &v))).collect();
    c.execs += 4;
    if ys.iter().any(|y| y.1 != ys[0].1 || matches!(y.1, Y::P(_))) {
        return Out::Fail(format!("{}\nverdicts {:?}", show(&text, rule, &v), ys));
    }
    let (cv, jv) = (v.to_ciborium(), v.to_serde_json());
    let a = api::guard(|| cddl_cat::value::Value::try_from(&cv));
    let b = api::guard(|| cddl_cat::value::Value::try_from(&jv));
    match (&a, &b) {
        (Ok(Ok(a)), Ok(Ok(b))) if a == b && *a == v.to_cat() => {}
        _ => return Out::Fail(format!("value {}: from CBOR {:?}, from JSON {:?}", v.show(), a, b)),
    }
    let m = Model::new(&sch).check(rule, &v);
    if m != R::Ambig && !fits(m, &ys[0].1) {
        return Out::Fail(format!("{}\ngot {:?}, expected {:?}", show(&text, rule, &v), ys[0].1, m));
    }
    c.label(match ys[0].1 {
        Y::Ok => "match",
        Y::No => "mismatch",
        _ => "error",
    });
    if how < 2 || v.size() > 1 {
        c.nontrivial(&(text.as_str(), v.show()));
        c.sample(|| format!("{} -> {:?}", show(&text, rule, &v), ys[0].1));
    }
    Out::Pass
}

pub const C17: Prop = Prop {
    id: "C17",
    rule: "random schema and value; several random encodings of the value (CBOR: wider heads, indefinite lengths, chunked \
strings, 16/32/64-bit floats, member order; JSON: whitespace, escapes, member order, exponents) must give the verdict of the \
plain one, and each must decode to the same crate value. Damaged input (cut short, extended, changed bytes, tags): an input \
that the harness's own CBOR decoder (for JSON: serde_json) calls malformed must be reported as a value error, one that is \
still well-formed must have the verdict of what it decodes to. Non-trivial: an encoding that differs from the plain one; distinct by schema and bytes.",
    fixed: 0,
    quick: 260_000,
    thorough: 4_000_000,
    budget: 20_000_000,
    f: c17,
};

fn c17(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        let json = s.bool();
        return super::large::encodings(s, c, json);
    }
    let json = s.pct(40);
    let cfg = Cfg { json, rules: 4, depth: 2, ..Cfg::default() };
    let sch = crate::gen::schema(s, &cfg);
    let (v, _) = crate::gen::value_for(s, &sch, json);
    let text = sch.text();
    let rule = &sch.0[0].name;
    if heavy(&sch, rule, &v) {
        return Out::Discard;
    }
    c.execs += 1;
    let base = api::cbor_bytes(rule, &text, &v.cbor());
    if let Y::P(m) = base {
        return Out::Fail(format!("{}\npanic: {}", show(&text, rule, &v), m));
    }
    match s.us(4) {
        0 => {
            c.label("cbor encodings");
            for _ in 0..2 {
                let b = v.cbor_alt(s);
                c.execs += 1;
                let got = api::cbor_bytes(rule, &text, &b);
                if got != base {
                    return Out::Fail(format!("{}\nplain encoding: {:?}; as {}: {:?}", show(&text, rule, &v), base, hex(&b), got));
                }
                if b != v.cbor() {
                    c.nontrivial(&(text.as_str(), &b));
                    c.sample(|| format!("{}\nas {} -> {:?}", show(&text, rule, &v), hex(&b), base));
                }
            }
            Out::Pass
        }
        1 if v.json_ok() => {
            c.label("json texts");
            for _ in 0..2 {
                let b = v.json_alt(s);
                c.execs += 1;
                let got = api::json_str(rule, &text, &b);
                if got != base {
                    return Out::Fail(format!("{}\nas CBOR: {:?}; as {:?}: {:?}", show(&text, rule, &v), base, b, got));
                }
                c.nontrivial(&(text.as_str(), &b));
                c.sample(|| format!("{}\nas {} -> {:?}", show(&text, rule, &v), b, base));
            }
            Out::Pass
        }
        2 if v.json_ok() => {
            // damaged JSON
            let mut b: Vec<char> = v.json_alt(s).chars().collect();
            for _ in 0..1 + s.us(2) {
                let n = b.len();
                match s.us(5) {
                    0 => b.truncate(s.us(n + 1)),
                    1 => {
                        let t = *s.pick(&[
                            "1", "]", "}", ",", "null", " \"x\"", "\u{0}", "/*x*/", "\n", "\u{feff}", "\u{a0}", "\u{b}", "\u{c}", "\u{1e}", "\u{85}",
                            "\u{2028}", ";", "//", "#", "0", "\r\n", "\t",
                        ]);
                        let at = if s.bool() { n } else { 0 };
                        b.splice(at..at, t.chars());
                    }
                    2 if n > 0 => {
                        b.remove(s.us(n));
                    }
                    _ => {
                        let i = s.us(n + 1);
                        b.insert(i, *s.pick(&['"', ',', '[', '}', '0', '-', '.', 'e', '\\', ':', ' ', 'é', '\'']));
                    }
                }
            }
            let t: String = b.into_iter().collect();
            c.execs += 1;
            let got = api::json_str(rule, &text, &t);
            if base == Y::Err(K::MissingRule) {
                return Out::Discard;
            }
            match serde_json::from_str::<serde_json::Value>(&t) {
                Err(_) => {
                    c.label("malformed json");
                    // the schema is settled before the data
                    let pre_err = matches!(base, Y::Err(_)) && got == base;
                    if got != Y::Err(K::Value) && !pre_err {
                        return Out::Fail(format!("schema:\n{}rule {}, JSON text {:?}: got {:?}, expected a value error", text, rule, t, got));
                    }
                }
                Ok(j) => {
                    c.label("still json");
                    let want = match api::context(&text) {
                        Ok(ctx) => api::y(api::guard(|| {
                            use cddl_cat::context::LookupContext;
                            cddl_cat::validate_json(ctx.lookup_rule(rule)?, &j, &ctx)
                        })),
                        Err(e) => e,
                    };
                    if got != want {
                        return Out::Fail(format!("schema:\n{}rule {}, JSON text {:?}: got {:?}, parsed first {:?}", text, rule, t, got, want));
                    }
                }
            }
            c.nontrivial(&(text.as_str(), &t));
            c.sample(|| format!("schema:\n{}rule {}, JSON text {:?} -> {:?}", text, rule, t, got));
            Out::Pass
        }
        k => {
            // damaged CBOR
            let mut b = v.cbor_alt(s);
            let mut tagged = false;
            if k == 3 && s.pct(25) {
                // a tag in front is outside the data model
                let n: u64 = match s.us(4) {
                    0 => s.us(6) as u64,
                    1 => 21 + s.us(18) as u64,
                    2 => *s.pick(&[55799, 6, 24, 40, 100, 255, 256, 258, 260, 1001, 55798, 55800, 65535, 65536, u64::MAX]),
                    _ => s.u64() >> s.us(64),
                };
                // (2 and 3 in front of a byte string make an integer)
                let n = if n == 2 || n == 3 { n + 2 } else { n };
                let mut tag = vec![];
                let least = match n {
                    0..=23 => 0,
                    24..=255 => 1,
                    256..=65535 => 2,
                    65536..=0xffff_ffff => 3,
                    _ => 4,
                };
                match least + if s.pct(25) { s.us(5 - least) } else { 0 } {
                    0 => tag.push(0xc0 | n as u8),
                    1 => tag.extend([0xd8, n as u8]),
                    2 => {
                        tag.push(0xd9);
                        tag.extend((n as u16).to_be_bytes())
                    }
                    3 => {
                        tag.push(0xda);
                        tag.extend((n as u32).to_be_bytes())
                    }
                    _ => {
                        tag.push(0xdb);
                        tag.extend(n.to_be_bytes())
                    }
                }
                // at the front, or in front of an inner item
                let inner: &[u8] = match s.us(8) {
                    0 => &[0x81],
                    1 => &[0x82, 0x00],
                    2 => &[0xa1, 0x61, 0x61],
                    3 => &[0xa1],
                    4 => &[0x9f],
                    _ => &[],
                };
                tag.splice(0..0, inner.iter().copied());
                match inner {
                    [0xa1] => b.push(0xf6),
                    [0x9f] => b.push(0xff),
                    _ => {}
                }
                tag.extend(b);
                b = tag;
                tagged = true;
            } else {
                for _ in 0..1 + s.us(2) {
                    let n = b.len();
                    match s.us(6) {
                        0 => b.truncate(s.us(n + 1)),
                        1 => b.push(s.byte()),
                        2 if n > 0 => {
                            b.remove(s.us(n));
                        }
                        3 => {
                            let i = s.us(n + 1);
                            b.insert(i, *s.pick(&[0xff, 0x00, 0x1c, 0x5f, 0x7f, 0x9f, 0xbf, 0x81, 0x61, 0x41, 0xf6]));
                        }
                        _ if n > 0 => {
                            let i = s.us(n);
                            b[i] = s.byte();
                        }
                        _ => {}
                    }
                }
            }
            c.execs += 1;
            let got = api::cbor_bytes(rule, &text, &b);
            let f = |want: &str| Out::Fail(format!("schema:\n{}rule {}, CBOR {}: got {:?}, expected {}", text, rule, hex(&b), got, want));
            let schema_err = matches!(base, Y::Err(_));
            match decode_cbor(&b) {
                Err(true) => {
                    c.label("malformed cbor");
                    if got != Y::Err(K::Value) && !(schema_err && got == base) {
                        return f("a value error");
                    }
                }
                Err(false) => {
                    if let Y::P(_) = got {
                        return f("no panic");
                    }
                    if !tagged {
                        return Out::Discard;
                    }
                    c.label("tagged");
                    if got != Y::Err(K::Value) && !(schema_err && got == base) {
                        return f("a value error");
                    }
                }
                Ok(x) => {
                    if heavy(&sch, rule, &x) {
                        return Out::Discard;
                    }
                    c.label("still cbor");
                    let want = api::run(Path::CborCtx, rule, &text, &x);
                    if got != want {
                        return f(&format!("{:?} (for {})", want, x.show()));
                    }
                    let t = ciborium::from_reader::<ciborium::Value, _>(&b[..]).ok();
                    if let Some(t) = t {
                        if x.show().contains("NaN") {
                            return Out::Pass;
                        }
                        let r = api::guard(|| cddl_cat::value::Value::try_from(&t));
                        match r {
                            Ok(Ok(y)) if y == x.to_cat() => {}
                            r => return Out::Fail(format!("CBOR {} converts to {:?}, expected {}", hex(&b), r, x.show())),
                        }
                    }
                }
            }
            c.nontrivial(&(text.as_str(), &b));
            c.sample(|| format!("schema:\n{}rule {}, CBOR {} -> {:?}", text, rule, hex(&b), got));
            Out::Pass
        }
    }
}
