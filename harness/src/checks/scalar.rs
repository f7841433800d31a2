//! Properties of scalar types, ranges and control operators, each decided
//! directly and inside random surroundings.

use super::*;
use crate::gen::Wrap;
use crate::model::{lit_eq, prelude, PRELUDE};
use crate::val::*;

thread_local! {
    static WANT: std::cell::RefCell<Option<Option<(T1, V, Vec<Rule>)>>> = const { std::cell::RefCell::new(None) };
}

/// The type and value that one of C11 to C15 would look at.
pub fn one(s: &mut Src, c: &mut Case) -> Option<(T1, V, Vec<Rule>)> {
    WANT.with(|w| *w.borrow_mut() = Some(None));
    let _ = match s.us(6) {
        0 => c11(s, c),
        1 => c12(s, c),
        2 | 3 => c13(s, c),
        _ => c14(s, c),
    };
    WANT.with(|w| w.borrow_mut().take().flatten())
}

/// Wrap the type and value 0-3 times and compare with the model.
pub fn wrapped(c: &mut Case, s: &mut Src, t: T1, v: V, extra: Vec<Rule>) -> Out {
    if WANT.with(|w| {
        let mut w = w.borrow_mut();
        w.is_some() && {
            *w = Some(Some((t.clone(), v.clone(), extra.clone())));
            true
        }
    }) {
        return Out::Discard;
    }
    let json = v.json_ok() && s.bool();
    let direct = {
        let mut w = Wrap::new(t.clone(), v.clone());
        w.rules = extra.clone();
        w.schema("top")
    };
    let d = match diff(c, s, &direct, &v) {
        Ok(d) => d,
        Err(o) => return o,
    };
    c.label(verdict_label(d.m));
    let mut w = Wrap::new(t, v);
    w.rules = extra;
    let n = s.us(4);
    for _ in 0..n {
        w.add(s, json);
    }
    if n > 0 {
        let sch = w.schema("top");
        match diff(c, s, &sch, &w.v) {
            Ok(d2) => {
                c.label(if d2.m == d.m { "wrapped, same verdict" } else { "wrapped, other verdict" });
            }
            Err(Out::Discard) => c.label("wrapped, open"),
            Err(o) => return o,
        }
    }
    c.nontrivial(&(d.text.as_str(), w.v.show()));
    c.sample(|| format!("{} -> {:?}", show(&w.schema("top").text(), "top", &w.v), d.m));
    Out::Pass
}

fn reps() -> Vec<V> {
    vec![
        V::Null,
        V::Bool(false),
        V::Bool(true),
        V::Int(0),
        V::Int(-1),
        V::Int(1),
        V::Int(i64::MAX as i128),
        V::Int(i64::MAX as i128 + 1),
        V::Int(u64::MAX as i128),
        V::Int(i64::MIN as i128),
        V::Int(i64::MIN as i128 - 1),
        V::Int(-(1i128 << 64)),
        V::Float(0.0),
        V::Float(1.0),
        V::Float(-1.5),
        V::Float(1e300),
        V::Text("".into()),
        V::Text("a".into()),
        V::Text("true".into()),
        V::Bytes(vec![]),
        V::Bytes(b"a".to_vec()),
        V::Arr(vec![]),
        V::Arr(vec![V::Int(1)]),
        V::Map(vec![]),
        V::Map(vec![(t("a"), V::Int(1))]),
    ]
}

pub const C01: Prop = Prop {
    id: "C01",
    rule: "enumerated: every supported prelude name against representative values of every kind; generated: a prelude \
name or a literal of any kind with a boundary-weighted value (equal, near or unrelated), checked alone and inside 0-3 \
random surroundings (array, map value, map key, generic argument, choice, .cbor, ...) on a random API path. \
Non-trivial: the model decides the verdict; distinct by schema text and value.",
    fixed: 32,
    quick: 1_000_000,
    thorough: 6_000_000,
    budget: 20_000_000,
    f: c01,
};

fn c01(s: &mut Src, c: &mut Case) -> Out {
    if let Some(i) = c.fixed {
        let Some(p) = PRELUDE.get(i as usize) else { return Out::Discard };
        for v in reps() {
            let want = prelude(p, &v).unwrap();
            let text = format!("top = {}\n", p);
            let mut paths = vec![Path::CborBytes, Path::CborCtx];
            if v.json_ok() {
                paths.extend([Path::JsonStr, Path::JsonCtx]);
            }
            for path in paths {
                let got = api::run(path, "top", &text, &v);
                if !fits(want, &got) {
                    return Out::Fail(format!("{} via {:?}: got {:?}, expected {:?}", show(&text, "top", &v), path, got, want));
                }
            }
        }
        c.nontrivial(*p);
        c.sample(|| format!("{} against {} representative values", p, reps().len()));
        return Out::Pass;
    }
    let (tt, v) = if s.pct(50) {
        let p = *s.pick(PRELUDE);
        let v = if s.pct(15) { gen_value(s, 2) } else { gen_scalar(s) };
        (name(p), v)
    } else {
        let l = match s.us(4) {
            0 => Lit::Int(gen_lit_int(s)),
            1 => Lit::Text(gen_text(s)),
            2 => Lit::Float(gen_float(s)),
            _ => Lit::Bytes(gen_bytes(s)),
        };
        let v = near(s, &l);
        if lit_eq(&l, &v) == R::Ok {
            c.label("equal literal");
        } else {
            c.label("unequal literal");
        }
        (T1::S(T2::Lit(l)), v)
    };
    wrapped(c, s, tt, v, vec![])
}

/// The literal's own value, one a step away, or the like in another type.
pub fn near(s: &mut Src, l: &Lit) -> V {
    let own = match l {
        Lit::Int(i) => V::Int(*i),
        Lit::Text(x) => V::Text(x.clone()),
        Lit::Float(f) => V::Float(*f),
        Lit::Bytes(b) => V::Bytes(b.clone()),
    };
    match s.weighted(&[45, 35, 20]) {
        0 => own,
        1 => match own {
            V::Int(i) => V::Int(match s.us(5) {
                0 => i + 1,
                1 => i - 1,
                2 => -i,
                // equal in the low 64 or 63 bits only
                3 => i.wrapping_add(1i128 << 64),
                _ => -1 - i,
            }
            .clamp(-(1i128 << 64), (1i128 << 64) - 1)),
            V::Text(mut x) => {
                match s.us(5) {
                    0 => x.push('a'),
                    1 => {
                        x.pop();
                    }
                    2 => x = x.chars().rev().collect(),
                    3 => x = x.to_uppercase(),
                    _ => x.insert(0, ' '),
                }
                V::Text(x)
            }
            V::Float(f) => {
                let g = match s.us(4) {
                    0 => f64::from_bits(f.to_bits() + 1),
                    1 => -f,
                    2 => f as f32 as f64,
                    _ => f + 1.0,
                };
                V::Float(if g.is_finite() && g != 0.0 { g } else { 2.0 })
            }
            V::Bytes(mut b) => {
                match s.us(3) {
                    0 => b.push(0),
                    1 => {
                        b.pop();
                    }
                    _ => {
                        if let Some(x) = b.last_mut() {
                            *x ^= 1
                        }
                    }
                }
                V::Bytes(b)
            }
            v => v,
        },
        _ => match own {
            V::Int(i) => {
                if s.bool() {
                    V::Float(i as f64 + 0.0)
                } else {
                    V::Text(i.to_string())
                }
            }
            V::Text(x) => V::Bytes(x.into_bytes()),
            V::Float(f) => {
                if f.abs() < 1e18 {
                    V::Int(f as i128)
                } else {
                    V::Text(f.to_string())
                }
            }
            V::Bytes(b) => V::Text(String::from_utf8_lossy(&b).into_owned()),
            v => v,
        },
    }
}

// ---------------------------------------------------- constants in schemas

/// A way to write a constant: in place, through names, or as an argument.
fn constant(s: &mut Src, rules: &mut Vec<Rule>, l: Lit) -> T2 {
    let lit = T2::Lit(l);
    match s.weighted(&[55, 30, 15]) {
        0 => lit,
        1 => {
            let mut t = lit;
            for _ in 0..1 + s.us(3) {
                let n = format!("{}-c{}", s.pick(crate::gen::NAMES), rules.len());
                rules.push(rule_t(&n, ty(T1::S(t))));
                t = T2::Name(n, vec![]);
            }
            t
        }
        _ => {
            let n = format!("id-{}", rules.len());
            let p = s.pick(crate::gen::PNAMES).to_string();
            rules.push(Rule { name: n.clone(), params: vec![p.clone()], val: RV::T(tn(&p)) });
            T2::Name(n, vec![T1::S(lit)])
        }
    }
}

/// A name for a prelude type: itself or through rules.
fn base(s: &mut Src, rules: &mut Vec<Rule>, n: &str) -> T2 {
    let mut t = T2::Name(n.into(), vec![]);
    if s.pct(35) {
        for _ in 0..1 + s.us(2) {
            let n = format!("{}-b{}", s.pick(crate::gen::NAMES), rules.len());
            rules.push(rule_t(&n, ty(T1::S(t))));
            t = T2::Name(n, vec![]);
        }
    }
    t
}

/// Maybe move the type into a generic rule that gets its operands as arguments.
fn lift(s: &mut Src, rules: &mut Vec<Rule>, t: T1) -> T1 {
    if !s.pct(20) {
        return t;
    }
    let n = format!("lifted-{}", rules.len());
    let p = ["T", "U"].map(|x| x.to_string());
    let pn = |i: usize| T2::Name(p[i].clone(), vec![]);
    let (val, args) = match t {
        T1::Range(a, i, b) => (T1::Range(pn(0), i, pn(1)), vec![T1::S(a), T1::S(b)]),
        T1::Ctl(a, o, b) if o != "regexp" && o != "cbor" => (T1::Ctl(pn(0), o, pn(1)), vec![T1::S(a), T1::S(b)]),
        t => return t,
    };
    rules.push(Rule { name: n.clone(), params: p.to_vec(), val: RV::T(ty(val)) });
    T1::S(T2::Name(n, args))
}

fn other(s: &mut Src, v: V) -> V {
    // now and then a value of quite another kind
    if s.pct(8) {
        return gen_value(s, 1);
    }
    if s.pct(6) {
        return match v {
            V::Int(i) => V::Float(i as f64 + 0.0),
            V::Float(f) if f.abs() < 1e15 => V::Int(f as i128),
            V::Text(t) => V::Bytes(t.into_bytes()),
            V::Bytes(b) => V::Text(String::from_utf8_lossy(&b).into_owned()),
            v => V::Arr(vec![v]),
        };
    }
    v
}

fn clampi(i: i128) -> i128 {
    i.clamp(-(1i128 << 64), (1i128 << 64) - 1)
}

fn step(f: f64, up: bool) -> f64 {
    if !f.is_finite() {
        return f;
    }
    let b = if f == 0.0 {
        return if up { f64::from_bits(1) } else { -f64::from_bits(1) };
    } else if (f > 0.0) == up {
        f.to_bits() + 1
    } else {
        f.to_bits() - 1
    };
    let g = f64::from_bits(b);
    if g == 0.0 {
        0.0
    } else {
        g
    }
}

// -------------------------------------------------------------------- C11

pub const C11: Prop = Prop {
    id: "C11",
    rule: "integer and floating-point ranges, inclusive and exclusive, over all literal values (boundary-weighted; also \
empty and reversed ranges, one-point ranges, mixed end points), end points written in place, through names, or as generic \
arguments; values at, one step beside, between and far from the end points, of the right or another kind, NaN and \
infinities in CBOR; alone and in random surroundings. Non-trivial: every decided case; distinct by schema and value.",
    fixed: 0,
    quick: 1_200_000,
    thorough: 12_000_000,
    budget: 20_000_000,
    f: c11,
};

fn c11(s: &mut Src, c: &mut Case) -> Out {
    let mut rules = vec![];
    let inc = s.bool();
    let (t, v) = if s.pct(60) {
        let a = gen_lit_int(s);
        let b = match s.us(4) {
            0 => a,
            1 => (a + s.range(-3, 20) as i128).clamp(i64::MIN as i128, u64::MAX as i128),
            _ => gen_lit_int(s),
        };
        let b = if a > b && s.pct(85) { a + (s.us(3) as i128) } else { b }.clamp(i64::MIN as i128, u64::MAX as i128);
        let v = match s.us(6) {
            0 => a + s.range(-1, 1) as i128,
            1 | 2 => b + s.range(-1, 1) as i128,
            3 => a + (b - a) / 2,
            4 => gen_int(s),
            // equal in the low bits only
            _ => (if s.bool() { a } else { b }) + [1i128 << 64, -(1i128 << 64), 1 << 32, 1 << 63][s.us(4)],
        };
        (T1::Range(constant(s, &mut rules, Lit::Int(a)), inc, constant(s, &mut rules, Lit::Int(b))), V::Int(clampi(v)))
    } else if s.pct(88) {
        let a = gen_float(s);
        let b = match s.us(4) {
            0 => a,
            1 => a + s.range(-3, 20) as f64 / 4.0,
            _ => gen_float(s),
        };
        let (a, b) = if a > b && s.pct(85) { (b, a) } else { (a, b) };
        let fix = |x: f64| if x == 0.0 || !x.is_finite() { 0.0 } else { x };
        let (a, b) = (fix(a), fix(b));
        let a = if s.pct(10) { 0.0 } else { a };
        let v = match s.us(8) {
            0 => a,
            1 => b,
            2 => step(a, s.bool()),
            3 => step(b, s.bool()),
            4 => a / 2.0 + b / 2.0,
            5 => gen_float(s),
            6 => *s.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            _ => a + 1.0,
        };
        // (the two zeros are one number)
        let v = if v == 0.0 && s.bool() { -v } else { v };
        (T1::Range(constant(s, &mut rules, Lit::Float(a)), inc, constant(s, &mut rules, Lit::Float(b))), V::Float(v))
    } else {
        // end points of different kinds
        let (i, f) = (gen_lit_int(s), gen_float(s));
        let (a, b) = if s.bool() { (Lit::Int(i), Lit::Float(f)) } else { (Lit::Float(f), Lit::Int(i)) };
        c.label("mixed end points");
        let v = if s.bool() { V::Int(i) } else { V::Float(f) };
        (T1::Range(constant(s, &mut rules, a), inc, constant(s, &mut rules, b)), v)
    };
    let t = lift(s, &mut rules, t);
    let v = other(s, v);
    wrapped(c, s, t, v, rules)
}

// -------------------------------------------------------------------- C12

pub const C12: Prop = Prop {
    id: "C12",
    rule: "int / uint / nint (named directly or through rules) with .lt .le .gt .ge and any literal limit (in place, through \
names, or as generic argument); values at and beside the limit, at the ends of the domain, anywhere in the CBOR integer \
range, and of other kinds; alone and in random surroundings. Non-trivial: every decided case; distinct by schema and value.",
    fixed: 0,
    quick: 1_200_000,
    thorough: 12_000_000,
    budget: 20_000_000,
    f: c12,
};

fn c12(s: &mut Src, c: &mut Case) -> Out {
    let mut rules = vec![];
    let lim = gen_lit_int(s);
    let b = *s.pick(&["int", "uint", "nint"]);
    let op = *s.pick(&["lt", "le", "gt", "ge"]);
    let tb = base(s, &mut rules, b);
    let t = T1::Ctl(tb, op.into(), constant(s, &mut rules, Lit::Int(lim)));
    let v = match s.us(8) {
        0 => lim,
        1 => lim - 1,
        2 => lim + 1,
        3 => s.range(-1, 0) as i128,
        4 => *s.pick(&[-(1i128 << 64), (1i128 << 64) - 1, i64::MIN as i128, i64::MAX as i128, 1 << 63]),
        5 => -lim,
        6 => lim + [1i128 << 64, -(1i128 << 64), 1 << 32, 1 << 63][s.us(4)],
        _ => gen_int(s),
    };
    let t = lift(s, &mut rules, t);
    let v = other(s, V::Int(clampi(v)));
    wrapped(c, s, t, v, rules)
}

// -------------------------------------------------------------------- C13

pub const C13: Prop = Prop {
    id: "C13",
    rule: "text, byte string and uint types (directly or through rules) with .size N or .size (A..B) / (A...B), limits 0 to \
beyond 16 and now and then huge, in place, through names or as generic argument; strings (with characters of 1-4 bytes) of \
lengths at and beside the limits, up to 70000 bytes; unsigned integers at powers of 256; values of other kinds; alone and in \
random surroundings. Non-trivial: every decided case; distinct by schema and value.",
    fixed: 0,
    quick: 1_125_000,
    thorough: 9_000_000,
    budget: 20_000_000,
    f: c13,
};

fn text_of(s: &mut Src, n: usize) -> String {
    let mut o = String::new();
    let mut cs = [gen_char(s), *s.pick(&['a', 'é', '漢', '🦀', '\u{0}'])];
    if s.pct(20) {
        // characters that some way of counting or trimming merges or drops
        cs = *s.pick(&[
            ['\r', '\n'],
            ['\n', '\n'],
            [' ', '\t'],
            ['e', '\u{301}'],
            ['\u{feff}', 'a'],
            ['\u{200d}', '👩'],
            ['\u{1f1e9}', '\u{1f1ea}'],
            ['\u{0}', '\u{0}'],
            ['\u{ad}', '\u{200b}'],
            ['\\', '"'],
        ]);
        let mut i = s.us(2);
        while o.len() < n {
            let c = cs[i % 2];
            i += 1;
            o.push(if o.len() + c.len_utf8() <= n { c } else { 'x' });
        }
        return o;
    }
    while o.len() < n {
        let c = cs[(o.len() / 3) % 2];
        if o.len() + c.len_utf8() <= n {
            o.push(c)
        } else {
            o.push('x')
        }
    }
    o
}

fn c13(s: &mut Src, c: &mut Case) -> Out {
    let mut rules = vec![];
    let kind = s.us(3);
    let b = match kind {
        0 => "uint",
        1 => *s.pick(&["tstr", "text", "tdate", "uri", "b64url", "regexp"]),
        _ => *s.pick(&["bstr", "bytes", "biguint", "encoded-cbor"]),
    };
    let tb = base(s, &mut rules, b);
    let lim = |s: &mut Src| match s.weighted(&[70, 22, 2, 6]) {
        0 => {
            let n = if kind == 0 && s.bool() { 10 } else { 20 };
            s.us(n)
        }
        1 => s.size(260),
        2 => [65535, 65536, 70000][s.us(3)],
        _ => [16, 17, 31, 32, 63, 64, 65, usize::MAX, usize::MAX - 1, 1 << 32, 1 << 61, (1 << 61) + 1][s.us(12)],
    };
    let a = lim(s);
    let (arg, lo, hi) = if s.bool() {
        (constant(s, &mut rules, Lit::Int(a as i128)), a, a)
    } else {
        let b = match s.us(8) {
            0 => a,
            1 => lim(s),
            _ => a.saturating_add(s.us(8)),
        };
        let r = T1::Range(T2::Lit(Lit::Int(a as i128)), s.bool(), T2::Lit(Lit::Int(b as i128)));
        let t = if s.pct(30) {
            let n = format!("sz-{}", rules.len());
            rules.push(rule_t(&n, ty(r)));
            T2::Name(n, vec![])
        } else {
            T2::Paren(ty(r))
        };
        (t, a, b)
    };
    let t = T1::Ctl(tb, "size".into(), arg);
    let at = (*s.pick(&[lo, hi])).min(70000);
    let v = match kind {
        0 => V::Int(match s.us(5) {
            0 | 1 => clampi((1i128 << (8 * (*s.pick(&[lo, hi])).min(8) as u32)) + s.range(-1, 1) as i128).max(0),
            2 => clampi((1i128 << (8 * s.us(9) as u32)) + s.range(-1, 1) as i128),
            3 => gen_int(s),
            _ => s.range(-1, 300) as i128,
        }),
        k => {
            let n = match s.us(5) {
                0 => at,
                1 => at.saturating_sub(1),
                2 => at + 1,
                3 => {
                    // as many characters as the limit has bytes
                    at * 2
                }
                _ => s.size(260),
            };
            if k == 1 {
                V::Text(text_of(s, n))
            } else {
                let x = s.byte();
                V::Bytes((0..n).map(|i| x.wrapping_add(i as u8)).collect())
            }
        }
    };
    let t = lift(s, &mut rules, t);
    let v = other(s, v);
    wrapped(c, s, t, v, rules)
}

// -------------------------------------------------------------------- C14

pub const C14: Prop = Prop {
    id: "C14",
    rule: "random regular expressions (literals incl. escaped, numbered and non-ASCII ones, blanks, #, classes, \\d \\w \\s \\b, ., alternation, groups, * + ? {n} \
{n,} {n,m}, lazy forms, named groups, nests up to 200 deep, anchors, (?i:...), (?s:...), (?m:...)) as tstr .regexp; texts sampled from the expression, mutated, extended (also by blanks, NUL, line ends, BOM), or random; malformed or unsupported patterns (back \
references, look-around, octal escapes, ...) must be a structural error whatever the value; oracle: the \
harness's own backtracking matcher (unanchored search); alone and in random surroundings; values of other kinds must \
mismatch. Non-trivial: every decided case; distinct by schema and value.",
    fixed: 0,
    quick: 250_000,
    thorough: 5_000_000,
    budget: 20_000_000,
    f: c14,
};

fn sch_t1(sch: &Schema) -> T1 {
    match &sch.0[0].val {
        RV::T(t) => t.0[0].clone(),
        RV::G(_) => unreachable!(),
    }
}

fn gen_rx(s: &mut Src, d: usize, ci: bool) -> crate::rx::Rx {
    use crate::rx::Rx;
    // case folding is only exercised on letters that fold within ASCII
    const L: &[char] = &['a', 'b', 'c', '0', '-', ' ', 'A', 'z', '.', '*', '(', ')', '[', '\\', '/', '"', '+', '?', '|', 'é', '漢', '🦀', '{', '$', '^'];
    // characters that mean something only in other places or modes
    const P: &[char] = &[' ', '#', '\t', '\n', '&', '~', '-', ',', ';', ':', '<', '>', '=', '!', '%', '@', '_', '\'', '`', '\r'];
    let lit = |s: &mut Src| if ci { *s.pick(&['a', 'B', 'c', '0']) } else { *s.pick(L) };
    if d == 0 {
        if !ci {
            match s.us(24) {
                0 | 1 => {
                    let n = 1 + s.us(4);
                    return Rx::Cat((0..n).map(|_| Rx::Lit(if s.pct(70) { *s.pick(P) } else { *s.pick(L) })).collect());
                }
                2 => return Rx::Perl(*s.pick(&['d', 'w', 's', 'D', 'W', 'S'])),
                3 => return Rx::Bound(s.pct(70)),
                4 => return Rx::Hex(*s.pick(&['a', ' ', '#', 'é', '漢', '\n', '.', '\u{7f}'])),
                _ => {}
            }
        }
        return match s.weighted(&[70, 12, 18]) {
            0 => Rx::Lit(lit(s)),
            1 => Rx::Any,
            _ => {
                let neg = s.pct(25);
                let n = 1 + s.us(3);
                let rs = (0..n)
                    .map(|_| *s.pick(&[('a', 'c'), ('0', '9'), ('b', 'b'), ('A', 'C'), ('x', 'z'), (' ', ' '), ('#', '&'), ('-', '-'), ('^', '^'), (']', ']'), ('é', 'é')]))
                    .collect();
                Rx::Class(neg, rs)
            }
        };
    }
    match s.weighted(&[35, 20, 20, 25, if ci { 0 } else { 4 }, 8]) {
        0 => {
            let n = 1 + s.us(4);
            Rx::Cat((0..n).map(|_| gen_rx(s, d - 1, ci)).collect())
        }
        1 => {
            let n = 2 + s.us(2);
            let mut v: Vec<Rx> = (0..n).map(|_| gen_rx(s, d - 1, ci)).collect();
            if s.pct(10) {
                v.push(Rx::Cat(vec![]));
            }
            Rx::Alt(v)
        }
        2 => gen_rx(s, 0, ci),
        3 => {
            let x = gen_rx(s, d - 1, ci);
            let (lo, hi) = match s.us(6) {
                0 => (0, usize::MAX),
                1 => (1, usize::MAX),
                2 => (0, 1),
                3 => (2, 2),
                4 => (1, usize::MAX),
                _ => (1, 3),
            };
            let x = Rx::Rep(Box::new(x), lo, hi);
            if s.pct(15) {
                Rx::Lazy(Box::new(x))
            } else {
                x
            }
        }
        5 => {
            let x = Box::new(gen_rx(s, d - 1, ci));
            match s.us(4) {
                0 => Rx::Dot(x),
                1 => Rx::Multi(Box::new(if s.bool() { Rx::Cat(vec![Rx::Start, *x]) } else { Rx::Cat(vec![*x, Rx::End]) })),
                2 => Rx::Group(true, x),
                _ => Rx::Group(false, x),
            }
        }
        _ => Rx::Ci(Box::new(gen_rx(s, d - 1, true))),
    }
}

fn c14(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(2) {
        return super::large::regexps(s, c);
    }
    use crate::rx::Rx;
    if s.pct(4) {
        // not a regular expression, or one that the engine does not offer
        const BAD: &[&str] = &[
            "(a)\\1", "\\1", "\\8", "\\141", "\\07", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "a{2,1}", "(", ")", "(a", "a)", "[", "[a",
            "[]", "[^]", "[b-a]", "[z-\\d]", "[[:foo:]b-a]", "*", "*a", "+a", "?a", "{1}", "a|*", "(*)", "(?P<n>a)(?P<n>b)", "(?P<>a)",
            "(?P<1>a)", "(?P=n)", "\\k<n>", "\\p{Foo}", "\\pQ", "\\p", "(?z)", "(?z:a)", "(?", "(?i", "(?-", "\\x", "\\xg0", "\\x{110000}", "\\x{d800}",
            "\\x{}", "\\u12", "\\u{}", "\\", "\\e", "\\y", "\\q", "\\Z", "\\G", "\\X", "\\R", "\\h", "\\c", "\\é", "(?#c)", "a{1", "a{,", "a{}", "a{a}", "a{1,2,3}",
            "a{100000}{100000}", "(?-u:\\xff)", "(?i-i", "[a-c--]x[", "[\\b]", "(?(1)a|b)", "(?R)", "\\Qa\\E",
        ];
        let b = *s.pick(BAD);
        if regex::Regex::new(b).is_ok() {
            return Out::Discard;
        }
        let (pre, post) = (*s.pick(&["", "", "a", "^", "[a-c]", "(b)", "x|", "a*b", ".", "\\d"]), *s.pick(&["", "", "b", "$", "c+", "|a", "(c)", "é"]));
        let p = format!("{}{}{}", pre, b, post);
        if regex::Regex::new(&p).is_ok() {
            return Out::Discard;
        }
        let t = T1::Ctl(T2::Name((*s.pick(&["tstr", "text"])).into(), vec![]), "regexp".into(), T2::Lit(Lit::Text(p)));
        let v = if s.pct(75) {
            V::Text((*s.pick(&["", "a", "b", "aa", "(", "(a", "a)", "[", "*", "x", "141", "1", "\u{8}", "ab", "a{2,1}", "\\1", "ba"])).into())
        } else {
            gen_scalar(s)
        };
        let sch = Schema(vec![rule_t("top", ty(t))]);
        c.label("malformed pattern");
        for text in [sch.text(), Schema(vec![rule_t("top", Type(vec![sch_t1(&sch), name("any")]))]).text()] {
            c.execs += 1;
            let got = api::run(Path::pick(s, &v), "top", &text, &v);
            if got != Y::Err(api::K::Structural) {
                return Out::Fail(format!("{}\ngot {:?}, expected a structural error: the pattern is malformed", show(&text, "top", &v), got));
            }
        }
        c.nontrivial(&(sch.text(), v.show()));
        return Out::Pass;
    }
    let body = {
        let d = 1 + s.us(3);
        gen_rx(s, d, false)
    };
    let (st, en) = (s.bool(), s.bool());
    let mut v = vec![];
    if st {
        v.push(Rx::Start);
    }
    v.push(body.clone());
    if en {
        v.push(Rx::End);
    }
    let rx = Rx::Cat(v);
    let mut p = String::new();
    crate::rx::render(&rx, &mut p);
    if p.len() > 400 {
        return Out::Discard;
    }
    // the matcher reads the pattern back from the text
    let mut x = String::new();
    let mode = s.us(5);
    if mode < 4 {
        crate::gen::sample_rx(s, &body, &mut x);
    }
    match mode {
        1 => {
            // put something around
            let pre = *s.pick(&["", "", "q", " ", "a", "\0", "\n", "\u{feff}", "\u{a0}", "é"]);
            let post = *s.pick(&["q", "\n", "a", "", "", "\r", "\r\n", "\0", "\t", " ", "\u{85}", "\u{a0}", "\u{feff}", "é"]);
            x = format!("{}{}{}", pre, x, post);
        }
        2 | 3 => {
            let mut cs: Vec<char> = x.chars().collect();
            for _ in 0..1 + s.us(2) {
                let i = s.us(cs.len() + 1);
                match s.us(3) {
                    0 if i < cs.len() => {
                        cs.remove(i);
                    }
                    1 if i < cs.len() => cs[i] = *s.pick(&['q', 'A', 'a', '\n', 'é', '\r', ' ', '#', '_']),
                    _ => cs.insert(i, *s.pick(&['q', 'a', '0', '\n', '\r'])),
                }
            }
            x = cs.into_iter().collect();
        }
        4 => {
            let n = s.us(8);
            x = (0..n).map(|_| *s.pick(&['a', 'b', 'c', '0', '\n', 'A', 'q', '\r'])).collect();
        }
        _ => {}
    }
    if x.len() > 60 {
        x = x.chars().take(40).collect();
    }
    let v = other(s, V::Text(x));
    let b = *s.pick(&["tstr", "text", "tdate", "uri"]);
    let t = T1::Ctl(T2::Name(b.into(), vec![]), "regexp".into(), T2::Lit(Lit::Text(p)));
    wrapped(c, s, t, v, vec![])
}

// -------------------------------------------------------------------- C15

pub const C15: Prop = Prop {
    id: "C15",
    rule: "random schema and value; relation: `bstr .cbor T` on a byte string holding any valid encoding of the value (also \
nested twice, and through a generic rule) has the verdict of T on the value; damaged encodings (cut short, extended, byte \
changed, random) mismatch exactly when the harness's own decoder calls them not well-formed, else have the verdict of T on \
what it decodes; a choice falls through to its next alternative. Non-trivial: T decided on both sides; distinct by schema and bytes.",
    fixed: 0,
    quick: 300_000,
    thorough: 4_000_000,
    budget: 20_000_000,
    f: c15,
};

fn c15(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::embedded(s, c);
    }
    let cfg = Cfg { rules: 4, depth: 2, ..Cfg::default() };
    let lax = s.pct(12);
    let sch = if lax {
        // T accepts everything, or everything of a kind
        let t = match s.us(5) {
            0 => tn("any"),
            1 => Type(vec![name("tstr"), name("any")]),
            2 => ty(arr(vec![oent(Occ::Star, ent1(name("any")))])),
            3 => ty(map(vec![oent(Occ::Star, kent(Key::Ty(name("any"), s.bool()), tn("any")))])),
            _ => tn("whatever"),
        };
        Schema(vec![rule_t("all", t), rule_t("whatever", tn("any"))])
    } else {
        crate::gen::schema(s, &cfg)
    };
    let (v, _) = crate::gen::value_for(s, &sch, false);
    let rule = sch.0[0].name.clone();
    let base_text = sch.text();
    let p0 = Path::pick(s, &v);
    let bt = T2::Name((*s.pick(&["bstr", "bytes", "encoded-cbor"])).into(), vec![]);
    let cb = |t: T2| T1::Ctl(bt.clone(), "cbor".into(), t);
    let mut rules = sch.0.clone();
    let arg = match s.us(5) {
        // the type itself instead of its name
        4 => match &sch.0[0].val {
            RV::T(t) => as_t2(t),
            RV::G(_) => T2::Name(rule.clone(), vec![]),
        },
        0 => T2::Paren(tn(&rule)),
        1 => T2::Paren(Type(vec![lit_t("\u{1}never"), name(&rule)])),
        _ => T2::Name(rule.clone(), vec![]),
    };
    let mut t = cb(arg);
    if s.pct(25) {
        // through a generic rule
        rules.push(Rule { name: "in-cbor".into(), params: vec!["P-t".into()], val: RV::T(ty(cb(T2::Name("P-t".into(), vec![])))) });
        t = T1::S(T2::Name("in-cbor".into(), vec![name(&rule)]));
    }
    let twice = s.pct(20);
    if twice {
        rules.push(rule_t("inner-cbor", ty(t)));
        t = cb(T2::Name("inner-cbor".into(), vec![]));
    }
    let fall = s.pct(30);
    let alt = if fall { vec![t.clone(), name("bstr")] } else { vec![t.clone()] };
    rules.insert(0, rule_t("wtop", Type(alt)));
    let text = Schema(rules).text();
    let mut bytes = v.cbor_alt(s);
    let damaged = s.pct(40);
    if damaged {
        for _ in 0..1 + s.us(2) {
            let n = bytes.len();
            match s.us(6) {
                0 => bytes.truncate(s.us(n + 1)),
                1 => bytes.push(s.byte()),
                2 | 3 if n > 0 => {
                    let i = s.us(n);
                    bytes[i] = s.byte();
                }
                4 if n > 0 => {
                    let i = s.us(n);
                    bytes.remove(i);
                }
                _ => {
                    let i = s.us(n + 1);
                    bytes.insert(i, *s.pick(&[0xff, 0x00, 0x5f, 0x9f, 0xbf, 0x1c, 0x81, 0xa1, 0x40, 0x60]));
                }
            }
        }
    }
    let dec = decode_cbor(&bytes);
    if !damaged && dec.as_ref() != Ok(&v) && !v.show().contains("NaN") {
        panic!("harness: decoder and encoder disagree on {}", v.show());
    }
    let want = match &dec {
        Err(true) => {
            c.label("not well-formed");
            Y::No
        }
        Err(false) => return Out::Discard,
        Ok(x) => {
            // what T says about the decoded value
            if open(&sch, &rule, x) {
                return Out::Discard;
            }
            c.execs += 1;
            let p = if x.json_ok() { p0 } else { Path::CborCtx };
            let y = api::run(p, &rule, &base_text, x);
            c.label(if damaged { "damaged, still well-formed" } else { "intact" });
            y
        }
    };
    let want = if fall && want == Y::No { Y::Ok } else { want };
    let mut w = V::Bytes(bytes.clone());
    if twice {
        w = V::Bytes(w.cbor_alt(s));
    }
    let p = Path::pick(s, &w);
    c.execs += 1;
    let got = api::run(p, "wtop", &text, &w);
    if got != want {
        return Out::Fail(format!(
            "{}\ngot {:?}, expected {:?} (decoded: {})",
            show(&text, "wtop", &w),
            got,
            want,
            match &dec {
                Ok(x) => x.show(),
                Err(_) => "not well-formed".into(),
            }
        ));
    }
    // other kinds of value are no match
    let x = gen_scalar(s);
    if !matches!(x, V::Bytes(_)) && !want.is_err() {
        c.execs += 1;
        let y = api::run(Path::pick(s, &x), "wtop", &text, &x);
        if y != Y::No {
            return Out::Fail(format!("{}\ngot {:?}, expected a mismatch", show(&text, "wtop", &x), y));
        }
    }
    c.label(match want {
        Y::Ok => "match",
        Y::No => "mismatch",
        _ => "schema error",
    });
    c.nontrivial(&(text.as_str(), &bytes));
    c.sample(|| format!("{} -> {:?}", show(&text, "wtop", &w), want));
    Out::Pass
}
