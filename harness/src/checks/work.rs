//! The work of a validation; what errors say.

use super::*;
use crate::budget::{self, Fuel};
use crate::val::*;
use api::K;

// -------------------------------------------------------------------- C30

pub const C30: Prop = Prop {
    id: "C30",
    rule: "depth: a random unit of 1-4 layers (array, map, occurrence, choice, key, embedded CBOR, name, generic, unwrap, named group, \
group choice, &group) around a scalar, or of 1-3 layers of groups around an entry within one container, written n, 2n, 4n ... times, with fitting data, and with data wrong at the innermost place; \
breadth: a container, schema or string with n, 2n, 4n ... members, right, wrong in one place, or one too many. The allocations plus \
lookups plus 32-byte blocks of a validation grow at most by a factor of 5 per doubling (4 would be quadratic) once above 4000, no \
validation takes 5 s of processor time, and every verdict is the one the construction implies. Non-trivial: every case; distinct by unit or template and kind of data.",
    fixed: 0,
    quick: 36_000,
    thorough: 300_000,
    budget: 400_000_000,
    f: c30,
};

fn n2(n: &str) -> T2 {
    T2::Name(n.into(), vec![])
}

fn bare(k: &str, t: T1) -> Ent {
    kent(Key::Bare(k.into()), ty(t))
}

fn unc(k: &str, t: T1) -> Ent {
    kent(Key::Ty(lit_t(k), false), ty(t))
}

const NEVER: &str = "\u{1}never";
const LAYERS: usize = 29;

/// Names that are followed on the way through a layer.
fn layer_names(k: usize) -> usize {
    match k {
        16 | 18..=21 | 24 | 25 => 1,
        17 | 26 => 2,
        _ => 0,
    }
}

fn layer(k: usize, i: usize, x: T1, v: V, rules: &mut Vec<Rule>) -> (T1, V) {
    let a = |v: Vec<V>| V::Arr(v);
    let m = |v: V| V::Map(vec![(t("a"), v)]);
    let any = || name("any");
    let rest = |k: &str| oent(Occ::Star, kent(Key::Ty(name(k), false), tn("any")));
    let r = format!("l{}", i);
    match k {
        0 => (arr(vec![ent1(x)]), a(vec![v])),
        1 => (arr(vec![ent1(name("int")), bare("k", x), ent1(name("tstr"))]), a(vec![V::Int(1), v, t("z")])),
        2 => (map(vec![bare("a", x)]), m(v)),
        3 => (map(vec![unc("a", x)]), m(v)),
        4 => (arr(vec![oent(Occ::Star, ent1(x))]), a(vec![v])),
        5 => (map(vec![oent(Occ::Star, kent(Key::Ty(name("tstr"), false), ty(x)))]), m(v)),
        6 => (map(vec![oent(Occ::Opt, bare("a", x)), rest("tstr")]), m(v)),
        7 => (map(vec![oent(Occ::Opt, unc("a", x)), rest("int")]), m(v)),
        8 => (T1::S(T2::Paren(Type(vec![lit_t(NEVER), x]))), v),
        9 => (T1::S(T2::Arr(Group(vec![vec![ent1(x)], vec![ent1(lit_t(NEVER))]]))), a(vec![v])),
        10 => (arr(vec![oent(Occ::Opt, ent1(x))]), a(vec![v])),
        11 => (arr(vec![oent(Occ::Plus, ent1(x)), oent(Occ::Star, ent1(lit_t(NEVER)))]), a(vec![v])),
        12 => (arr(vec![oent(Occ::N(Some(1), Some(3)), ent1(x))]), a(vec![v])),
        13 => (T1::Ctl(n2("bstr"), "cbor".into(), as_t2(&ty(x))), V::Bytes(v.cbor())),
        14 => (map(vec![kent(Key::Ty(x, i % 2 == 0), tn("int"))]), V::Map(vec![(v, V::Int(1))])),
        15 => (map(vec![oent(Occ::Star, kent(Key::Ty(x, false), ty(any())))]), V::Map(vec![(v, V::Null)])),
        16 => {
            rules.push(rule_t(&r, ty(x)));
            (name(&r), v)
        }
        17 => {
            rules.push(Rule { name: r.clone(), params: vec!["P".into()], val: RV::T(ty(arr(vec![ent1(name("P"))]))) });
            (T1::S(T2::Name(r, vec![x])), a(vec![v]))
        }
        18 => {
            rules.push(rule_t(&r, ty(arr(vec![ent1(x)]))));
            (arr(vec![ent1(T1::S(T2::Unwrap(r, vec![])))]), a(vec![v]))
        }
        19 => {
            rules.push(rule_t(&r, ty(map(vec![bare("a", x)]))));
            (map(vec![ent1(T1::S(T2::Unwrap(r, vec![])))]), m(v))
        }
        20 => {
            rules.push(rule_g(&r, pent(grp(vec![bare("a", x), bare("b", name("int"))]))));
            (map(vec![ent1(name(&r))]), V::Map(vec![(t("a"), v), (t("b"), V::Int(1))]))
        }
        21 => {
            rules.push(rule_g(&r, pent(grp(vec![bare("a", x), bare("b", name("int"))]))));
            (arr(vec![ent1(name(&r))]), a(vec![v, V::Int(1)]))
        }
        22 => (T1::S(T2::AmpInline(grp(vec![bare("n", lit_t(NEVER)), bare("a", x)]))), v),
        23 => {
            let g = Group(vec![vec![ent1(name("int")), ent1(x)], vec![ent1(lit_t(NEVER)), ent1(name("int"))]]);
            (T1::S(T2::Arr(g)), a(vec![V::Int(1), v]))
        }
        24 => {
            rules.push(rule_g(&r, pent(grp(vec![bare("n", lit_t(NEVER)), bare("a", x)]))));
            (T1::S(T2::Amp(r, vec![])), v)
        }
        25 => {
            // a group choice; the other alternative does not look at the same data
            rules.push(rule_g(&r, pent(Group(vec![vec![bare("a", x)], vec![bare("z", name("int"))]]))));
            (map(vec![ent1(name(&r))]), m(v))
        }
        26 => {
            rules.push(Rule { name: r.clone(), params: vec!["P".into()], val: RV::G(pent(grp(vec![bare("a", name("P")), bare("b", name("int"))]))) });
            (map(vec![ent1(T1::S(T2::Name(r, vec![x])))]), V::Map(vec![(t("a"), v), (t("b"), V::Int(1))]))
        }
        27 => (T1::S(T2::Map(Group(vec![vec![bare("a", x)], vec![bare("z", name("int"))]]))), m(v)),
        _ => (arr(vec![oent(Occ::Star, ent1(name("tstr"))), ent1(x), oent(Occ::Star, ent1(name("tstr")))]), a(vec![t("p"), v, t("q")])),
    }
}

/// Both verdict and work of one validation.
fn measure(c: &mut Case, rule: &str, text: &str, v: &V, json: bool) -> Result<(Y, u64, u64), Out> {
    let ctx = match api::context(text) {
        Ok(x) => x,
        Err(e) => return Err(Out::Fail(format!("{}\ncannot be prepared: {:?}", text, e))),
    };
    let fuel = Fuel::new(&ctx, 200_000_000);
    c.execs += 1;
    let (y, k) = if json {
        let d = v.to_serde_json();
        budget::cost(|| api::y(api::guard(|| cddl_cat::validate_json(fuel.inner.lookup_rule(rule)?, &d, &fuel))))
    } else {
        let d = v.to_ciborium();
        budget::cost(|| api::y(api::guard(|| cddl_cat::validate_cbor(fuel.inner.lookup_rule(rule)?, &d, &fuel))))
    };
    Ok((y, k.allocs + fuel.used.get() + k.bytes / 32, k.ns))
}

fn clip(x: &str) -> String {
    if x.len() < 1500 {
        x.into()
    } else {
        format!("{}... ({} bytes)", x.chars().take(1500).collect::<String>(), x.len())
    }
}

/// Run a series; `mk` makes schema text, value and expected verdict for a size.
fn series(c: &mut Case, what: &str, sizes: &[usize], json: bool, mk: &mut dyn FnMut(usize) -> (String, V, Y)) -> Option<Out> {
    let mut last: Option<(usize, u64)> = None;
    for &n in sizes {
        let (text, v, want) = mk(n);
        let j = json && v.json_ok();
        let (y, w, ns) = match measure(c, "x", &text, &v, j) {
            Ok(x) => x,
            Err(o) => return Some(o),
        };
        if y != want {
            return Some(Out::Fail(format!("{} x {}: got {:?}, expected {:?}\n{}", what, n, y, want, clip(&show(&text, "x", &v)))));
        }
        if ns > 5_000_000_000 {
            return Some(Out::Fail(format!("{} x {}: {} ms of processor time\n{}", what, n, ns / 1_000_000, clip(&show(&text, "x", &v)))));
        }
        if let Some((m, l)) = last {
            let f = (n as f64 / m as f64).log2();
            if w > 4000 && w as f64 > 5f64.powf(f) * l as f64 {
                return Some(Out::Fail(format!(
                    "{}: {} times: work {}, {} times: work {}\n{}",
                    what,
                    m,
                    l,
                    n,
                    w,
                    clip(&show(&text, "x", &v))
                )));
            }
        }
        last = Some((n, w));
    }
    let (n, w) = last.unwrap();
    c.sample(|| format!("{}: work {} at {}", what, w, n));
    None
}

/// Groups inside groups inside one container: entries wrapped n times.
fn nested(s: &mut Src, c: &mut Case) -> Out {
    let is_map = s.bool();
    let json = s.bool();
    let bad = s.us(3) == 0;
    let k = 1 + s.us(3);
    let unit: Vec<usize> = (0..k).map(|_| s.us(11)).collect();
    let names: usize = unit.iter().map(|k| [0, 0, 0, 0, 1, 1, 2, 1, 1, 0, 2][*k]).sum();
    let top = if names > 0 { 40 / names } else { (if c.thorough { 96usize } else { 40 }) / k };
    let mut sizes = vec![];
    let mut n = top.max(1);
    while n > 0 {
        sizes.insert(0, n);
        n /= 2;
    }
    let what = format!("entries {:?} in {}, {}", unit, if is_map { "a map" } else { "an array" }, if bad { "wrong inside" } else { "right" });
    let never = |i: usize| if is_map { kent(Key::Ty(lit_t(&format!("{}{}", NEVER, i)), i % 2 == 0), tn("any")) } else { ent1(lit_t(NEVER)) };
    let boxed = |es: Vec<Ent>| if is_map { map(es) } else { arr(es) };
    let f = series(c, &what, &sizes, json, &mut |n| {
        let mut rules = vec![];
        let mut e = if is_map { bare("a", name("int")) } else { ent1(name("int")) };
        let mut i = 0;
        for _ in 0..n {
            for k in &unit {
                let r = format!("l{}", i);
                // (an entry with an occurrence first, so that each parenthesis is a group at once)
                let no = oent(Occ::Opt, never(i));
                e = match k {
                    0 => pent(grp(vec![no, e])),
                    1 => pent(grp(vec![no.clone(), e, no])),
                    2 => oent(Occ::Opt, pent(grp(vec![no, e]))),
                    3 => oent(Occ::Plus, pent(grp(vec![no, e]))),
                    4 => {
                        rules.push(rule_g(&r, pent(grp(vec![no.clone(), e, no]))));
                        ent1(name(&r))
                    }
                    5 => {
                        rules.push(rule_t(&r, ty(boxed(vec![no, e]))));
                        ent1(T1::S(T2::Unwrap(r, vec![])))
                    }
                    6 => {
                        rules.push(Rule { name: r.clone(), params: vec!["P".into()], val: RV::G(pent(grp(vec![no, e, oent(Occ::Star, never(i))]))) });
                        ent1(T1::S(T2::Name(r, vec![name("int")])))
                    }
                    7 => {
                        rules.push(rule_g(&r, pent(Group(vec![vec![never(i)], vec![no, e]]))));
                        oent(Occ::Opt, ent1(name(&r)))
                    }
                    8 => {
                        rules.push(rule_g(&r, pent(grp(vec![no, e]))));
                        oent(Occ::N(Some(1), Some(2)), ent1(name(&r)))
                    }
                    9 => pent(Group(vec![vec![no.clone(), never(i)], vec![no, e]])),
                    _ => {
                        rules.push(rule_g(&r, pent(Group(vec![vec![no.clone(), e], vec![no, never(i)]]))));
                        ent1(name(&r))
                    }
                };
                i += 1;
            }
        }
        rules.insert(0, rule_t("x", ty(boxed(vec![e]))));
        let x = if bad { V::Float(0.25) } else { V::Int(7) };
        let v = if is_map { V::Map(vec![(t("a"), x)]) } else { V::Arr(vec![x]) };
        (Schema(rules).text(), v, if bad { Y::No } else { Y::Ok })
    });
    if let Some(o) = f {
        return o;
    }
    c.label(if bad { "nested entries, wrong inside" } else { "nested entries" });
    c.nontrivial(&(unit, is_map, bad, json));
    Out::Pass
}

fn c30(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(25) {
        return breadth(s, c);
    }
    if s.pct(20) {
        return nested(s, c);
    }
    let k = 1 + s.us(4);
    let unit: Vec<usize> = (0..k).map(|_| s.us(LAYERS)).collect();
    let names: usize = unit.iter().map(|k| layer_names(*k)).sum();
    let top = if names > 0 { 40 / names } else { (if c.thorough { 64usize } else { 32 }) / k };
    // embedded CBOR grows with each level, keys are compared whole: both are quadratic already
    let mut sizes = vec![];
    let mut n = top.max(1);
    while n > 0 {
        sizes.insert(0, n);
        n /= 2;
    }
    let bad = s.us(3) == 0;
    let json = s.bool();
    let what = format!("layers {:?}, {}", unit, if bad { "wrong inside" } else { "right" });
    let f = series(c, &what, &sizes, json, &mut |n| {
        let mut rules = vec![];
        let (mut x, mut v) = (name("int"), if bad { V::Float(0.25) } else { V::Int(7) });
        let mut i = 0;
        for _ in 0..n {
            for k in &unit {
                (x, v) = layer(*k, i, x, v, &mut rules);
                i += 1;
            }
        }
        rules.insert(0, rule_t("x", ty(x)));
        (Schema(rules).text(), v, if bad { Y::No } else { Y::Ok })
    });
    if let Some(o) = f {
        return o;
    }
    c.label(if bad { "depth, wrong inside" } else { "depth" });
    c.nontrivial(&(unit, bad, json));
    Out::Pass
}

/// What is wrong with the data: 0 nothing, 1 the last item, 2 the first item, 3 one too many
fn breadth(s: &mut Src, c: &mut Case) -> Out {
    let k = s.us(34);
    let bad = s.us(4);
    let json = s.bool();
    let pos = s.us(1000);
    let (top, lo) = (if c.thorough { 2048 } else { 800 }, 20 + s.us(30));
    let mut sizes = vec![];
    let mut n = lo;
    while n <= top {
        sizes.push(n);
        n *= 2;
    }
    let what = format!("breadth {}, data {}", k, bad);
    let wrong = || V::Float(0.25);
    let f = series(c, &what, &sizes, json, &mut |n| {
        let ok = if bad == 0 { Y::Ok } else { Y::No };
        let at = |n: usize| match bad {
            1 => n - 1,
            2 => 0,
            _ => pos * n / 1000,
        };
        let ints = |n: usize| {
            let mut a: Vec<V> = (0..n).map(|i| V::Int(i as i128)).collect();
            match bad {
                1 | 2 => a[at(n)] = wrong(),
                3 => a.push(wrong()),
                _ => {}
            }
            V::Arr(a)
        };
        let keyed = |n: usize| {
            let mut m: Vec<(V, V)> = (0..n).map(|i| (t(&format!("k{}", i)), V::Int(i as i128))).collect();
            match bad {
                1 | 2 => m[at(n)].1 = wrong(),
                3 => m.push((t("more"), wrong())),
                _ => {}
            }
            V::Map(m)
        };
        let each = |n: usize, f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        match k {
            0 => ("x = [* int]\n".into(), ints(n), ok),
            1 => ("x = [+ item]\nitem = int\n".into(), ints(n), ok),
            2 => (format!("x = [{}*{} int]\n", n, n), ints(n), ok),
            3 => (format!("x = [{}]\n", each(n, &|_| "int".into(), ", ")), ints(n), ok),
            4 => (format!("x = [{}]\n", each(n, &|i| format!("a{}: int", i), ", ")), ints(n), ok),
            5 => ("x = {* tstr => int}\n".into(), keyed(n), ok),
            6 => ("x = {+ tstr => item}\nitem = int\n".into(), keyed(n), ok),
            7 => (format!("x = {{{}}}\n", each(n, &|i| format!("k{}: int", i), ", ")), keyed(n), ok),
            8 => (format!("x = {{{}}}\n", each(n, &|i| format!("\"k{}\" => int", i), ", ")), keyed(n), ok),
            9 => (format!("x = {{{}}}\n", each(n, &|i| format!("? k{}: int", n - 1 - i), ", ")), keyed(n), ok),
            10 => (format!("x = {{{}, * tstr => int}}\n", each(n, &|i| format!("? z{}: int", i), ", ")), keyed(n), ok),
            11 => (format!("x = [* c]\nc = {}\n", each(n.min(200), &|i| format!("\"n{}\"", i), " / ") + " / int"), ints(n), ok),
            12 => ("x = [* (int, tstr)]\n".into(), {
                let mut a: Vec<V> = (0..n).flat_map(|i| [V::Int(i as i128), t("s")]).collect();
                match bad {
                    1 | 2 => a[2 * at(n)] = wrong(),
                    3 => a.push(wrong()),
                    _ => {}
                }
                V::Arr(a)
            }, ok),
            13 => ("x = [* (int // tstr)]\n".into(), ints(n), ok),
            14 => ("x = [* g]\ng = (int, ? tstr)\n".into(), ints(n), ok),
            15 => (format!("x = [~y]\ny = [{}]\n", each(n, &|_| "int".into(), ", ")), ints(n), ok),
            16 => (format!("x = {{~y}}\ny = {{{}}}\n", each(n, &|i| format!("k{}: int", i), ", ")), keyed(n), ok),
            17 => (format!("x = [* &g]\ng = ({}, k: int)\n", each(n.min(200), &|i| format!("n{}: \"n{}\"", i, i), ", ")), ints(n), ok),
            18 => (format!("x = [{}]\n", each(n, &|_| "a".into(), ", ")) + "a = b\nb = int\n", ints(n), ok),
            19 => (format!("x = {{{}}}\n", each(n, &|i| format!("g{}", i), ", ")) + &each(n, &|i| format!("g{} = (k{}: int)\n", i, i), ""), keyed(n), ok),
            20 => (format!("x = tstr .size {}\n", n * 40), t(&"s".repeat(n * 40 + (bad > 0) as usize)), ok),
            21 => (format!("x = bstr .size {}\n", n * 40), V::Bytes(vec![7; n * 40 + (bad > 0) as usize]), ok),
            22 => ("x = tstr .regexp \"^(ab)*$\"\n".into(), t(&("ab".repeat(n * 20) + if bad > 0 { "a" } else { "" })), ok),
            23 => (format!("x = \"{}\"\n", "ab".repeat(n * 20)), t(&("ab".repeat(n * 20) + if bad > 0 { "a" } else { "" })), ok),
            24 => ("x = bstr .cbor y\ny = [* int]\n".into(), V::Bytes(ints(n).cbor()), ok),
            25 => ("x = [* bstr .cbor y]\ny = int\n".into(), V::Arr((0..n).map(|i| V::Bytes(if bad > 0 && i == at(n) { vec![0x19, 1] } else { V::Int(i as i128).cbor() })).collect()), ok),
            26 => ("x = [* {a: int, ? b: tstr}]\n".into(), V::Arr((0..n).map(|i| V::Map(vec![(t("a"), if bad > 0 && i == at(n) { wrong() } else { V::Int(1) })])).collect()), ok),
            27 => ("x = [* w<int>]\nw<T> = [T, T]\n".into(), V::Arr((0..n).map(|i| V::Arr(vec![V::Int(1), if bad > 0 && i == at(n) { wrong() } else { V::Int(1) }])).collect()), ok),
            28 => ("x = {* k => int}\nk = tstr .regexp \"^(k[0-9]+|more)$\"\n".into(), keyed(n), ok),
            29 => ("x = {* int => tstr, * tstr => int}\n".into(), keyed(n), ok),
            30 => (format!("x = [{}]\n", each(n, &|i| format!("\"n{}\"", i), " // ") + " // * int"), ints(n), ok),
            31 => (format!("x = {{{}}}\n", each(n, &|i| format!("n{}: int", i), " // ") + " // * tstr => int"), keyed(n), ok),
            32 => ("x = [* 0..100000]\n".into(), ints(n), ok),
            _ => ("x = [* int .lt 100000]\n".into(), ints(n), ok),
        }
    });
    if let Some(o) = f {
        return o;
    }
    c.label(["breadth", "breadth, last wrong", "breadth, first wrong", "breadth, more"][bad]);
    c.nontrivial(&(k, bad, json));
    Out::Pass
}

// -------------------------------------------------------------------- C31

pub const C31: Prop = Prop {
    id: "C31",
    rule: "(a) a prelude type, literal, range or choice behind names, in 0-5 surroundings that require it, with a value it rejects: the error's \
text is `Mismatch(expected X)` with X that type, `choice of n`, or `shorter array` / `shorter map` for data with something left over; (b) one \
undefined name at any kind of place in random surroundings: the text is `MissingRule(that name)`; (c) random schema and value: every \
entry point and format gives the same text, twice; (d) damaged schema text: the text of the error quotes a part of the input (only a bare key with arguments is described in words), and a malformed \
literal at any place, 0-4 constructs deep, is reported with its own kind of malformed literal and a part of it. \
Non-trivial: the validation fails; distinct by schema and value.",
    fixed: 0,
    quick: 400_000,
    thorough: 2_000_000,
    budget: 40_000_000,
    f: c31,
};

/// The message for a type that stands alone.
fn expected(s: &mut Src) -> (T1, String) {
    const P: &[(&str, &str)] = &[
        ("int", "int"),
        ("uint", "uint"),
        ("nint", "nint"),
        ("float", "float"),
        ("float16", "float"),
        ("float32", "float"),
        ("float64", "float"),
        ("tstr", "tstr"),
        ("text", "tstr"),
        ("bstr", "bstr"),
        ("bytes", "bstr"),
        ("bool", "bool"),
        ("nil", "nil"),
        ("null", "nil"),
        ("true", "true"),
        ("false", "false"),
    ];
    let int = |s: &mut Src| gen_lit_int(s).min(u64::MAX as i128);
    match s.us(6) {
        0 | 1 => {
            let (n, m) = *s.pick(P);
            (name(n), m.into())
        }
        2 => {
            let i = int(s);
            (lit_i(i), i.to_string())
        }
        3 => {
            let x = (*s.pick(&["", "a", "é漢🦀", "a b", "it's", "{}", "x\ty"])).to_string();
            (lit_t(&x), format!("\"{}\"", x))
        }
        4 if s.pct(40) => {
            let fl = |s: &mut Src| *s.pick(&[0.5, 1.5, 2.5, -2.25, 1e300, 3.125, 1e-5, -1e20]);
            let (a, b): (f64, f64) = (fl(s), fl(s));
            let (a, b) = (a.min(b), a.max(b));
            let inc = s.bool();
            (T1::Range(T2::Lit(Lit::Float(a)), inc, T2::Lit(Lit::Float(b))), format!("{}{}{}", a, if inc { ".." } else { "..." }, b))
        }
        4 => {
            let (a, b) = (int(s), int(s));
            let (a, b) = (a.min(b), a.max(b));
            let inc = s.bool();
            (T1::Range(T2::Lit(Lit::Int(a)), inc, T2::Lit(Lit::Int(b))), format!("{}{}{}", a, if inc { ".." } else { "..." }, b))
        }
        _ => {
            let f = *s.pick(&[0.5, -2.25, 1e300, 3.125]);
            (T1::S(T2::Lit(Lit::Float(f))), format!("{}", f))
        }
    }
}

fn c31(s: &mut Src, c: &mut Case) -> Out {
    match s.weighted(&[40, 20, 25, 15]) {
        0 => c31_expected(s, c),
        1 => c31_missing(s, c),
        2 => c31_same(s, c),
        _ => c31_parse(s, c),
    }
}

fn c31_expected(s: &mut Src, c: &mut Case) -> Out {
    let mut rules = vec![];
    let (mut x, mut v, m);
    match s.us(8) {
        0 => {
            // a choice
            let n = 2 + s.size(20);
            let ts: Vec<T1> = (0..n).map(|_| expected(s).0).collect();
            m = format!("choice of {}", n);
            rules.push(rule_t("ch", Type(ts)));
            x = name("ch");
            v = gen_value(s, 1);
        }
        1 | 2 => {
            let is_map = s.bool();
            let n = s.us(5);
            let opt = |s: &mut Src, e: Ent| if s.pct(30) { oent(Occ::Opt, e) } else { e };
            if is_map {
                x = map((0..n).map(|i| opt(s, kent(Key::Bare(format!("k{}", i)), tn("int")))).collect());
                v = V::Map((0..n).map(|i| (t(&format!("k{}", i)), V::Int(1))).collect());
                if let V::Map(m) = &mut v {
                    m.push((t("other"), gen_small(s)));
                }
                m = "shorter map".into();
            } else {
                x = arr((0..n).map(|_| opt(s, ent1(name("int")))).collect());
                v = V::Arr((0..n).map(|_| V::Int(1)).chain([t("more")]).collect());
                m = "shorter array".into();
            }
        }
        _ => {
            (x, m) = expected(s);
            v = match &x {
                T1::S(T2::Lit(l)) if s.bool() => scalar::near(s, l),
                _ => gen_value(s, 1),
            };
        }
    }
    // it must be rejected where it stands
    let base = Schema([vec![rule_t("b", ty(x.clone()))], rules.clone()].concat());
    match Model::new(&base).check("b", &v) {
        R::No => {}
        _ => return Out::Discard,
    }
    let k = s.us(6);
    let mut names = 0;
    for i in 0..k {
        let l = *s.pick(&[0usize, 1, 2, 3, 16, 16, 17, 18, 19, 20, 21, 13, 26]);
        names += layer_names(l);
        (x, v) = layer(l, i, x, v, &mut rules);
    }
    let _ = names;
    rules.insert(0, rule_t("x", ty(x)));
    let text = Schema(rules).text();
    let want = format!("Mismatch(expected {})", m);
    let p = Path::pick(s, &v);
    c.execs += 1;
    match api::message(p, "x", &text, &v) {
        Ok(Some((Y::No, got))) if got == want => {}
        got => return Out::Fail(format!("{}\nexpected the error `{}`, got {:?}", show(&text, "x", &v), want, got)),
    }
    c.label("expected type");
    c.nontrivial(&(text.as_str(), v.show()));
    c.sample(|| format!("{} -> {}", show(&text, "x", &v), want));
    Out::Pass
}

/// The names a schema refers to and does not define.
fn undefined(sch: &Schema) -> Vec<String> {
    let mut out = vec![];
    for r in &sch.0 {
        rules::map_names(&r.val, &mut |n| {
            if !crate::model::is_prelude(n) && sch.rule(n).is_none() && !r.params.iter().any(|p| p == n) {
                out.push(n.to_string());
            }
            None
        });
    }
    out.sort();
    out.dedup();
    out
}

fn c31_missing(s: &mut Src, c: &mut Case) -> Out {
    let mut rules = vec![];
    let (x, v, kinds) = robust::broken(s, &mut rules, c);
    if kinds != [K::MissingRule] {
        return Out::Discard;
    }
    let mut w = gen::Wrap::new(x, v);
    w.rules = rules;
    for i in 0..s.us(5) {
        if s.bool() {
            robust::lenient(&mut w, s, i);
        } else {
            w.add(s, false);
        }
    }
    let sch = w.schema("x");
    let bad = undefined(&sch);
    let [bad] = &bad[..] else { return Out::Discard };
    let text = sch.text();
    let (rule, want) = if s.pct(10) { ("no-root", "MissingRule(no-root)".to_string()) } else { ("x", format!("MissingRule({})", bad)) };
    let p = Path::pick(s, &w.v);
    c.execs += 1;
    match api::message(p, rule, &text, &w.v) {
        Ok(Some((_, got))) if got == want => {}
        got => return Out::Fail(format!("{}\nexpected the error `{}`, got {:?}", show(&text, rule, &w.v), want, got)),
    }
    c.label("undefined name");
    c.nontrivial(&(text.as_str(), w.v.show()));
    c.sample(|| format!("{} -> {}", show(&text, rule, &w.v), want));
    Out::Pass
}

fn c31_same(s: &mut Src, c: &mut Case) -> Out {
    let json = s.pct(60);
    let cfg = Cfg { json, fatal: if s.pct(15) { 5 } else { 0 }, ..Cfg::default() };
    let sch = gen::schema(s, &cfg);
    let (v, _) = gen::value_for(s, &sch, json);
    let rule = &sch.0[0].name;
    if heavy(&sch, rule, &v) {
        return Out::Discard;
    }
    let text = sch.text();
    let ps: &[Path] =
        if v.json_ok() { &[Path::CborBytes, Path::JsonStr, Path::CborCtx, Path::JsonCtx] } else { &[Path::CborBytes, Path::CborCtx, Path::CborBytes] };
    let first = api::message(ps[0], rule, &text, &v);
    c.execs += ps.len() as u64;
    for p in &ps[1..] {
        let got = api::message(*p, rule, &text, &v);
        if got != first {
            return Out::Fail(format!("{}\nvia {:?}: {:?}\nvia {:?}: {:?}", show(&text, rule, &v), ps[0], first, p, got));
        }
    }
    if let Ok(Some((y, m))) = &first {
        let form = match y {
            Y::No => m.starts_with("Mismatch(expected ") && m.ends_with(')'),
            Y::Err(K::MissingRule) => m.starts_with("MissingRule("),
            Y::Err(K::Structural) => m.starts_with("Structural("),
            Y::Err(K::Generic) => m == "GenericError",
            Y::Err(K::Unsupported) => m.starts_with("Unsupported "),
            _ => false,
        };
        if !form {
            return Out::Fail(format!("{}\n{:?} reads `{}`", show(&text, rule, &v), y, m));
        }
        c.label("same text");
        c.nontrivial(&(text.as_str(), v.show()));
        c.sample(|| format!("{} -> {}", show(&text, rule, &v), m));
    }
    Out::Pass
}

/// A rule with a literal somewhere in it.
fn lit_place(s: &mut Src, l: &str, positive: bool) -> String {
    let gap = |s: &mut Src| if s.pct(80) { " ".to_string() } else { s.pick(&["\n", "  ", " ; note\n"]).to_string() };
    let mut t = match s.us(14) {
        0 => format!("{{{}: int}}", l),
        1 => format!("{{? {} : int, b: int}}", l),
        2 => format!("1..{}", l),
        3 => format!("{} ...{}5", l, gap(s)),
        4 => format!("tstr .{}{}{}", s.pick(&["size", "regexp", "lt", "cbor", "eq"]), gap(s), l),
        5 => format!("{} .size 5", l),
        6 if positive => format!("[{}*{} int]", l, s.pick(&["", "5"])),
        7 if positive => format!("{{{}*{} tstr => int}}", s.pick(&["", "5"]), l),
        _ => l.to_string(),
    };
    for _ in 0..s.us(5) {
        let g = gap(s);
        t = match s.us(20) {
            0 => format!("[{}]", t),
            1 => format!("[a:{}{}]", g, t),
            2 => format!("{{a:{}{}, b: int}}", g, t),
            3 => format!("{{* tstr =>{}{}}}", g, t),
            4 => format!("{{\"k\" ^ =>{}{}}}", g, t),
            5 => format!("{{? {} => any}}", t),
            6 => format!("({})", t),
            7 => format!("(int /{}{})", g, t),
            8 => format!("({} / int)", t),
            9 => format!("[int, a /{}{}, b]", g, t),
            10 => format!("[a: int, 2*3{}{}]", g, t),
            11 => format!("[int //{}{}]", g, t),
            12 => format!("{{int => int // b: {} // c: int}}", t),
            13 => format!("{{(a: int, (b: {}))}}", t),
            14 => format!("&(a: {}, b: 1)", t),
            15 => format!("g<{}>", t),
            16 => format!("g<int,{}{}>", g, t),
            17 => format!("[1: {}]", t),
            18 => format!("{{1 => int / {}}}", t),
            _ => format!("[* (int, {})]", t),
        };
    }
    match s.us(6) {
        0 => format!("x<t> = {}\n", t),
        1 => format!("x = ({}, int)\n", t),
        2 => format!("x = (a: {})\n", t),
        3 => format!("x = int / {}\n", t),
        _ => format!("x = {}\n", t),
    }
}

fn c31_parse(s: &mut Src, c: &mut Case) -> Out {
    let (sch, _) = text::any_schema(s);
    let (other, _) = text::any_schema(s);
    let mut x = sch.text();
    let mut kind = None;
    if s.pct(40) {
        // a malformed literal, anywhere
        let (l, why) = text::bad_lit(s);
        let k = match why {
            _ if l.chars().any(|c| c.is_control()) => return Out::Discard,
            "integer too large" | "integer too small" => "MalformedInteger",
            "float too large" | "hexadecimal float" => "MalformedFloat",
            "odd number of hex digits" | "not a hex digit" => "MalformedHex",
            "not a base64url digit" | "base64 of impossible length" => "MalformedBase64",
            "bad escape" => "MalformedText",
            _ => return Out::Discard,
        };
        kind = Some((k, l.clone()));
        c.label(k);
        let at = lit_place(s, &l, why == "integer too large");
        x.insert_str(if s.bool() { 0 } else { x.len() }, &at);
    } else if s.pct(30) {
        // a malformed literal
        let (l, _) = text::bad_lit(s);
        let at = match s.us(4) {
            0 => format!("x = {}\n", l),
            1 => format!("x = int / {}\n", l),
            2 => format!("x = [a: {}]\n", l),
            _ => format!("x = {{{} => int}}\n", l),
        };
        x.insert_str(if s.bool() { 0 } else { x.len() }, &at);
    } else {
        for _ in 0..1 + s.us(3) {
            fuzz::damage(s, &mut x, &other.text());
        }
    }
    c.execs += 2;
    let e = match api::guard(|| cddl_cat::parser::parse_cddl(&x)) {
        Err(m) => return Out::Fail(format!("text:\n{}\npanic: {}", x, m)),
        Ok(Ok(_)) => return Out::Discard,
        Ok(Err(e)) => e,
    };
    let shown = e.to_string();
    if let Some((k, l)) = &kind {
        let squeeze = |x: &str| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        if format!("{:?}", e.kind) != *k || e.ctx.is_empty() || !squeeze(l).contains(&squeeze(&e.ctx)) {
            return Out::Fail(format!("text:\n{}\nexpected {} about `{}`, got {}", x, k, l, shown));
        }
    }
    if shown != format!("{:?}({})", e.kind, e.ctx) {
        return Out::Fail(format!("text:\n{}\nkind {:?} and snippet {:?} read {:?}", x, e.kind, e.ctx, shown));
    }
    // (the bytes of h'..' and b64'..' are quoted without the whitespace)
    let squeeze = |x: &str| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    // (a bare key with arguments is described in words)
    let described = e.ctx == "Bareword with generic arguments" && x.contains('>');
    if !described && !x.contains(&e.ctx) && !squeeze(&x).contains(&squeeze(&e.ctx)) {
        return Out::Fail(format!("text:\n{}\nthe error quotes {:?}, which is not in the text", x, e.ctx));
    }
    match api::message(Path::JsonStr, "x", &x, &V::Null) {
        Ok(Some((Y::Err(K::Parse), m))) if m == shown => {}
        got => return Out::Fail(format!("text:\n{}\nparse error {:?}; validation gives {:?}", x, shown, got)),
    }
    c.label("damaged text");
    c.nontrivial(x.as_str());
    c.sample(|| format!("text:\n{}\n-> {}", x, shown));
    Out::Pass
}
