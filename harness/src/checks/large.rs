//! Large dimensions: many members, alternatives, items, parameters or rules,
//! long names, texts and byte strings.  Schemas and values are built together
//! so that the verdict is known without the model.

use super::*;
use crate::api::K;
use crate::val::*;
use std::convert::TryFrom;

/// A size above those of random schemas, often next to a power of two or ten.
pub fn dim(s: &mut Src, max: usize) -> usize {
    const EDGES: &[usize] = &[
        8, 10, 16, 20, 24, 32, 48, 50, 64, 96, 100, 128, 200, 250, 255, 256, 300, 400, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384,
        32768, 65535, 65536,
    ];
    if s.pct(60) {
        let k = EDGES.iter().filter(|e| **e < max).count();
        // the smaller ones more often: they are cheap
        let k = if s.bool() { k.min(17) } else { k };
        (EDGES[s.us(k)] + s.us(5)).saturating_sub(2).clamp(2, max)
    } else {
        (2 + s.us(400)).min(max)
    }
}

fn clip(t: &str) -> String {
    if t.len() <= 1600 {
        return t.to_string();
    }
    let (mut a, mut b) = (1000, t.len() - 400);
    while !t.is_char_boundary(a) {
        a -= 1
    }
    while !t.is_char_boundary(b) {
        b += 1
    }
    format!("{} … {}", &t[..a], &t[b..])
}

/// The verdict of rule x of `text` on `v` must be `want`.
pub fn expect(c: &mut Case, s: &mut Src, what: &'static str, text: &str, v: &V, want: Y) -> Out {
    let p = Path::pick(s, v);
    c.execs += 1;
    let got = api::run(p, "x", text, v);
    if got != want {
        return Out::Fail(format!("large ({}): schema:\n{}\nvalue {}\nvia {:?}: got {:?}, expected {:?}", what, clip(text), clip(&v.show()), p, got, want));
    }
    c.label("large");
    c.nontrivial(&(what, text, crate::engine::hash(&format!("{:?}", v))));
    Out::Pass
}

/// A list of entries in pieces: some behind names of groups, some in parentheses.
fn pieces(s: &mut Src, es: &[String], rules: &mut String) -> String {
    if s.pct(60) {
        return es.join(", ");
    }
    let k = 1 + s.us(es.len().max(1));
    let named = s.bool();
    es.chunks(k)
        .enumerate()
        .map(|(i, c)| {
            if named {
                rules.push_str(&format!("piece-{} = ({})\n", i, c.join(", ")));
                format!("piece-{}", i)
            } else {
                format!("({})", c.join(", "))
            }
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn item(style: usize, i: usize) -> (String, V) {
    match style {
        0 => (format!("{}", i), V::Int(i as i128)),
        1 => (format!("\"t{}\"", i), t(&format!("t{}", i))),
        2 => match i % 3 {
            0 => ("int".into(), V::Int(i as i128)),
            1 => ("tstr".into(), t("v")),
            _ => ("bool".into(), V::Bool(i % 2 == 0)),
        },
        _ => ("int".into(), V::Int(i as i128)),
    }
}

/// Arrays of many members.
pub fn arrays(s: &mut Src, c: &mut Case) -> Out {
    let mut rules = String::new();
    if s.pct(25) {
        // many group choices
        let n = dim(s, 600);
        let j = s.us(n + 1);
        let alts: Vec<String> = (0..n).map(|i| if i % 2 == 0 { format!("{}, tstr", i) } else { format!("k: {}, l: tstr", i) }).collect();
        let at = s.bool();
        let text = if at { format!("x = [{}]\n", alts.join(" // ")) } else { format!("x = [int, g]\ng = ({})\n", alts.join(" // ")) };
        let mut v = vec![V::Int(j as i128), t("a")];
        if !at {
            v.insert(0, V::Int(1));
        }
        return expect(c, s, "group choices in an array", &text, &V::Arr(v), if j < n { Y::Ok } else { Y::No });
    }
    let n = dim(s, 1100);
    let style = s.us(4);
    let (es, mut vs): (Vec<String>, Vec<V>) = (0..n).map(|i| item(style, i)).map(|(e, v)| (if s.pct(3) { format!("k: {}", e) } else { e }, v)).unzip();
    let j = s.us(n);
    let want = match s.us(6) {
        0 | 1 => Y::Ok,
        2 => {
            vs.remove(j);
            Y::No
        }
        3 => {
            vs.insert(j, V::Null);
            Y::No
        }
        4 => {
            vs[j] = V::Null;
            Y::No
        }
        _ => {
            let k = 1 + s.us(3);
            for _ in 0..k {
                vs.push(vs[s.us(n)].clone());
            }
            Y::No
        }
    };
    let body = pieces(s, &es, &mut rules);
    let text = match s.us(4) {
        0 => format!("x = [~u]\nu = [{}]\n{}", body, rules),
        1 => format!("x = [[{}]]\n{}", body, rules),
        _ => format!("x = [{}]\n{}", body, rules),
    };
    let v = if text.starts_with("x = [[") { V::Arr(vec![V::Arr(vs)]) } else { V::Arr(vs) };
    expect(c, s, "members of an array", &text, &v, want)
}

fn shuffled(s: &mut Src, m: Vec<(V, V)>) -> Vec<(V, V)> {
    let n = m.len();
    if n < 2 {
        return m;
    }
    let k = s.us(n);
    let mut m: Vec<_> = m[k..].iter().chain(m[..k].iter()).cloned().collect();
    if s.bool() {
        m.reverse();
    }
    m
}

/// Maps of many members.
pub fn maps(s: &mut Src, c: &mut Case) -> Out {
    let mut rules = String::new();
    let n = dim(s, 700);
    let j = s.us(n);
    match s.us(4) {
        0 => {
            // many group choices
            let j = s.us(n + 1);
            let alts: Vec<String> = (0..n).map(|i| if i % 3 == 0 { format!("k{}: int", i) } else { format!("k{}: int, ? z: int", i) }).collect();
            let text = if s.bool() { format!("x = {{{}}}\n", alts.join(" // ")) } else { format!("x = {{g}}\ng = ({})\n", alts.join(" // ")) };
            return expect(c, s, "group choices in a map", &text, &V::Map(vec![(t(&format!("k{}", j)), V::Int(1))]), if j < n { Y::Ok } else { Y::No });
        }
        1 => {
            // many pairs for one member
            let mut m: Vec<(V, V)> = (0..n).map(|i| (t(&format!("k{}", i)), V::Int(i as i128))).collect();
            let want = match s.us(4) {
                0 => {
                    m[j].1 = V::Bool(true);
                    Y::No
                }
                1 => {
                    m.push((V::Int(1), V::Int(1)));
                    Y::No
                }
                _ => Y::Ok,
            };
            let text = *s.pick(&["x = {* tstr => int}\n", "x = {* tstr => int, ? zz: tstr}\n", "x = {+ g}\ng = (tstr => int)\n", "x = {* (tstr => int)}\n"]);
            let m = V::Map(shuffled(s, m));
            return expect(c, s, "pairs", text, &m, want);
        }
        _ => {}
    }
    let ints = s.pct(30);
    let opt = s.us(3);
    let is_opt = |i: usize| opt == 1 || (opt == 2 && i % 2 == 1);
    let es: Vec<String> = (0..n)
        .map(|i| {
            let o = if is_opt(i) { "? " } else { "" };
            if ints {
                format!("{}{} => {}", o, i, i)
            } else {
                format!("{}k{}: {}", o, i, i)
            }
        })
        .collect();
    let mut m: Vec<(V, V)> = (0..n).map(|i| (if ints { V::Int(i as i128) } else { t(&format!("k{}", i)) }, V::Int(i as i128))).collect();
    let want = match s.us(5) {
        0 => {
            m.remove(j);
            if is_opt(j) {
                Y::Ok
            } else {
                Y::No
            }
        }
        1 => {
            m[j].1 = V::Int(-1);
            Y::No
        }
        2 => {
            m.push((if ints { V::Int(n as i128) } else { t(&format!("k{}", n)) }, V::Int(0)));
            Y::No
        }
        _ => Y::Ok,
    };
    let body = pieces(s, &es, &mut rules);
    let text = if s.pct(25) { format!("x = {{~u}}\nu = {{{}}}\n{}", body, rules) } else { format!("x = {{{}}}\n{}", body, rules) };
    let m = V::Map(shuffled(s, m));
    expect(c, s, "members of a map", &text, &m, want)
}

/// Many optional members, some of them cuts, before a member that takes anything.
pub fn cuts(s: &mut Src, c: &mut Case) -> Out {
    let n = dim(s, 500);
    let j = s.us(n);
    let every = 1 + s.us(4);
    let cut = |i: usize| i.is_multiple_of(every);
    let es: Vec<String> = (0..n)
        .map(|i| match (cut(i), i % 2) {
            (true, 0) => format!("? k{}: int", i),
            (true, _) => format!("? \"k{}\" ^ => int", i),
            _ => format!("? \"k{}\" => int", i),
        })
        .collect();
    let mut m: Vec<(V, V)> = (0..n).filter(|i| *i == j || i % 3 == 0).map(|i| (t(&format!("k{}", i)), V::Int(0))).collect();
    let wrong = s.pct(70);
    if wrong {
        for p in m.iter_mut() {
            if p.0 == t(&format!("k{}", j)) {
                p.1 = V::Bool(true)
            }
        }
    }
    let (text, want) = match s.us(3) {
        0 => (format!("x = {{{}, * tstr => any}}\n", es.join(", ")), if wrong && cut(j) { Y::No } else { Y::Ok }),
        // each is a group of its own, where the cut ends
        1 => (format!("x = {{{}, * tstr => any}}\n", es.iter().map(|e| format!("? ({})", &e[2..])).collect::<Vec<_>>().join(", ")), Y::Ok),
        _ => (format!("x = {{{}}}\n", es.join(", ")), if wrong { Y::No } else { Y::Ok }),
    };
    let m = V::Map(shuffled(s, m));
    expect(c, s, "cuts", &text, &m, want)
}

/// Alternatives that fail after they consumed much.
pub fn rewinds(s: &mut Src, c: &mut Case) -> Out {
    let n = dim(s, 2000);
    let distinct = n <= 600 && s.bool();
    let lits = |k: usize| (0..k).map(|i| format!("{}", i)).collect::<Vec<_>>().join(", ");
    let mut vs: Vec<V> = (0..n).map(|i| V::Int(i as i128)).collect();
    if s.pct(35) {
        // in a map
        let n = n.min(400);
        let ks = |k: usize| (0..k).map(|i| format!("k{}: int", i)).collect::<Vec<_>>().join(", ");
        let mut m: Vec<(V, V)> = (0..n).map(|i| (t(&format!("k{}", i)), V::Int(0))).collect();
        let last = s.us(2);
        if last == 1 {
            m.push((t("z"), V::Bool(false)));
        }
        let first = *s.pick(&["(* tstr => int, z: true)", "(* (tstr => int), z: true)", "(* tstr => int, y: bool)", "(* tstr => int, * tstr => bool, y: bool)"]);
        let (second, want) = match s.us(4) {
            0 => (format!("{}*{} tstr => int", n, n), last == 0),
            1 => (format!("{}*{} tstr => int, z: bool", n, n), last == 1),
            2 => (format!("{}, ? z: bool", ks(n)), true),
            _ => (format!("{}, ? z: bool", ks(n - 1)), false),
        };
        let text = match s.us(3) {
            0 => format!("x = {{{} // ({})}}\n", first, second),
            1 => format!("x = {{? {}, {}}}\n", first, second),
            _ => format!("x = {{g}}\ng = ({} // {})\n", first, second),
        };
        let m = V::Map(shuffled(s, m));
        return expect(c, s, "given back to a map", &text, &m, if want { Y::Ok } else { Y::No });
    }
    let last = s.us(2);
    if last == 1 {
        vs.push(V::Bool(false));
    }
    let first = match s.us(5) {
        0 => "(* int, true)".to_string(),
        1 => "(* (int), null)".to_string(),
        2 => "(+ int, * bool, null)".to_string(),
        3 => "(~u, null)".to_string(),
        _ => format!("({}*{} int, null)", n / 2, n),
    };
    let (second, want) = match s.us(5) {
        0 => (format!("{}*{} int", n, n), last == 0),
        1 => (format!("{}*{} int, bool", n, n), last == 1),
        2 if distinct => (format!("{}, ? bool", lits(n)), true),
        3 if distinct => (format!("{}, ? bool", lits(n - 1)), false),
        2 | 3 => (format!("{}* int, ? bool", n + 1), false),
        _ => ("0, 1, * int, ? bool".to_string(), true),
    };
    let text = match s.us(3) {
        0 => format!("x = [{} // ({})]\nu = [* int]\n", first, second),
        1 => format!("x = [? {}, {}]\nu = [* int]\n", first, second),
        _ => format!("x = [g]\ng = ({} // {})\nu = [* int]\n", first, second),
    };
    expect(c, s, "given back to an array", &text, &V::Arr(vs), if want { Y::Ok } else { Y::No })
}

/// Many repetitions.
pub fn occurs(s: &mut Src, c: &mut Case) -> Out {
    let max = if s.pct(10) { 66_000 } else { 3000 };
    let n = dim(s, max);
    let near = |s: &mut Src, n: usize| match s.us(4) {
        0 => n,
        1 => n + 1,
        2 => n.saturating_sub(1),
        _ => s.us(2 * n),
    };
    let lo = if s.bool() { near(s, n) } else { s.us(2) };
    let hi = if s.bool() { Some(near(s, n)) } else { None };
    let (occ, lo, hi) = match s.us(5) {
        0 => ("*".to_string(), 0, None),
        1 => ("+".to_string(), 1, None),
        2 => (format!("*{}", hi.unwrap_or(n)), 0, Some(hi.unwrap_or(n))),
        _ => (format!("{}*{}", lo, hi.map(|h| h.to_string()).unwrap_or_default()), lo, hi),
    };
    let ok = lo <= n && hi.is_none_or(|h| n <= h);
    let want = if ok { Y::Ok } else { Y::No };
    let (text, v) = match s.us(6) {
        0 | 1 => (format!("x = [{} int]\n", occ), V::Arr((0..n).map(|i| V::Int(i as i128)).collect())),
        2 => (format!("x = [{} (int, a: int)]\n", occ), V::Arr((0..2 * n).map(|i| V::Int(i as i128)).collect())),
        3 => (format!("x = [{} g]\ng = (a: int)\n", occ), V::Arr((0..n).map(|i| V::Int(i as i128)).collect())),
        4 => (format!("x = {{{} int => int}}\n", occ), V::Map((0..n).map(|i| (V::Int(i as i128), V::Int(0))).collect())),
        _ => (format!("x = {{{} tstr => int}}\n", occ), V::Map((0..n).map(|i| (t(&format!("k{}", i)), V::Int(0))).collect())),
    };
    expect(c, s, "repetitions", &text, &v, want)
}

/// Many parameters.
pub fn generics(s: &mut Src, c: &mut Case) -> Out {
    let n = dim(s, 150);
    let pm = (1 + s.us(n), s.us(n)); // body order: i -> (i * a + b) % n, if that is a permutation
    let gcd = |mut a: usize, mut b: usize| {
        while b > 0 {
            (a, b) = (b, a % b)
        }
        a
    };
    let a = if gcd(pm.0, n) == 1 { pm.0 } else { 1 };
    let at = |i: usize| (i * a + pm.1) % n;
    let pname = |i: usize| format!("P{}", i);
    let params: Vec<String> = (0..n).map(pname).collect();
    let args: Vec<String> = (0..n).map(|i| format!("{}", i)).collect();
    let body: Vec<String> = (0..n).map(|i| pname(at(i))).collect();
    let hops = s.us(4);
    // each hop passes its parameters on, rotated
    let mut text = String::new();
    let mut shift = 0;
    text.push_str(&format!("x = h0<{}>\n", args.join(", ")));
    for h in 0..hops {
        let r = s.us(n);
        let pass: Vec<String> = (0..n).map(|i| pname((i + r) % n)).collect();
        text.push_str(&format!("h{}<{}> = h{}<{}>\n", h, params.join(", "), h + 1, pass.join(", ")));
        shift += r;
    }
    let map = s.bool();
    if map {
        let es: Vec<String> = body.iter().enumerate().map(|(i, b)| format!("k{}: {}", i, b)).collect();
        text.push_str(&format!("h{}<{}> = {{{}}}\n", hops, params.join(", "), es.join(", ")));
    } else {
        text.push_str(&format!("h{}<{}> = [{}]\n", hops, params.join(", "), body.join(", ")));
    }
    let mut vs: Vec<V> = (0..n).map(|i| V::Int(((at(i) + shift) % n) as i128)).collect();
    let want = match s.us(3) {
        0 => {
            let j = s.us(n);
            vs[j] = V::Int(n as i128);
            Y::No
        }
        1 => {
            let (i, j) = (s.us(n), s.us(n));
            vs.swap(i, j);
            if i == j {
                Y::Ok
            } else {
                Y::No
            }
        }
        _ => Y::Ok,
    };
    let v = if map { V::Map(vs.into_iter().enumerate().map(|(i, v)| (t(&format!("k{}", i)), v)).collect()) } else { V::Arr(vs) };
    expect(c, s, "parameters", &text, &v, want)
}

/// A name that is `n` characters long.
fn long_name(s: &mut Src, n: usize) -> String {
    let cs = ["a", "Z", "_", "-", ".", "9", "@", "$"];
    let (a, b) = (s.us(3), s.us(8));
    let mut o: String = (0..n.max(2)).map(|i| if i % 5 == 3 { cs[b] } else { cs[a] }).collect();
    while o.ends_with(['-', '.']) {
        o.pop();
    }
    o
}

/// Many rules, or rules with long names that nearly agree.
pub fn rules(s: &mut Src, c: &mut Case) -> Out {
    let n = dim(s, 1500);
    if s.bool() {
        let base = long_name(s, n);
        let mut names: Vec<String> = vec![format!("{}a", base), format!("{}b", base), base.clone(), format!("{}aa", base), format!("b{}", base)];
        // one that differs somewhere inside
        let mut other: Vec<char> = base.chars().collect();
        let i = s.us(other.len());
        other[i] = if other[i] == 'q' { 'r' } else { 'q' };
        names.push(other.into_iter().collect());
        let mut rs: Vec<String> = names.iter().enumerate().map(|(i, n)| format!("{} = {}", n, i)).collect();
        let k = s.us(rs.len());
        rs.rotate_left(k);
        let j = s.us(names.len());
        let got = if s.bool() { j } else { s.us(names.len()) };
        let text = match s.us(4) {
            0 => format!("x = {}\n{}\n", names[j], rs.join("\n")),
            1 => format!("{}\nx = [{}]\n", rs.join("\n"), names[j]),
            2 => format!("{}\nx = g<{}>\ng<{}z> = {}z\n", rs.join("\n"), names[j], base, base),
            _ => format!("{}\nx = {{\"k\" => {}}}\n", rs.join("\n"), names[j]),
        };
        let v = V::Int(got as i128);
        let v = if text.contains("x = [") {
            V::Arr(vec![v])
        } else if text.contains("x = {") {
            V::Map(vec![(t("k"), v)])
        } else {
            v
        };
        return expect(c, s, "long names", &text, &v, if got == j { Y::Ok } else { Y::No });
    }
    // many rules
    let j = s.us(n);
    let got = if s.bool() { j } else { s.us(n) };
    let mut rs: Vec<String> = (0..n).map(|i| format!("r{} = {}", i, i)).collect();
    let k = s.us(n);
    rs.rotate_left(k);
    let x = format!("x = [r{}, r{}]", j, n - 1);
    let at = s.us(n + 1);
    rs.insert(at, x);
    let text = rs.join("\n");
    expect(c, s, "many rules", &text, &V::Arr(vec![V::Int(got as i128), V::Int(n as i128 - 1)]), if got == j { Y::Ok } else { Y::No })
}

/// Many type alternatives, or members of a group used as a choice.
pub fn choices(s: &mut Src, c: &mut Case, amp: bool) -> Out {
    let n = dim(s, 1500);
    let style = s.us(2);
    let j = s.us(n + n / 8 + 1);
    let alts: Vec<String> = (0..n).map(|i| item(style, i).0).collect();
    let v = item(style, j).1;
    let want = if j < n { Y::Ok } else { Y::No };
    let mut extra = String::new();
    let ch = if amp {
        let es: Vec<String> = alts.iter().enumerate().map(|(i, a)| if i == 0 || i % 3 > 0 { format!("m{}: {}", i, a) } else { a.clone() }).collect();
        match s.us(3) {
            0 => format!("&({})", es.join(", ")),
            1 => {
                extra = format!("grp = ({})\n", es.join(", "));
                "&grp".into()
            }
            _ => {
                let k = s.us(n) + 1;
                extra = format!("g2 = ({})\n", es[..k].join(", "));
                if k < n {
                    extra.push_str(&format!("grp = (g2, {})\n", es[k..].join(", ")));
                } else {
                    extra.push_str("grp = (g2)\n");
                }
                "&grp".into()
            }
        }
    } else {
        match s.us(3) {
            0 => format!("({})", alts.join(" / ")),
            1 => {
                extra = format!("ch = {}\n", alts.join(" / "));
                "ch".into()
            }
            _ => {
                // names for each
                for (i, a) in alts.iter().enumerate() {
                    extra.push_str(&format!("r{} = {}\n", i, a));
                }
                format!("({})", (0..n).map(|i| format!("r{}", i)).collect::<Vec<_>>().join(" / "))
            }
        }
    };
    let (text, v) = match s.us(5) {
        0 | 1 => (format!("x = {}\n{}", ch, extra), v),
        2 => (format!("x = [int, {}]\n{}", ch, extra), V::Arr(vec![V::Int(1), v])),
        3 => (format!("x = {{a: {}}}\n{}", ch, extra), V::Map(vec![(t("a"), v)])),
        _ => (format!("x = {{{} => bool}}\n{}", ch, extra), V::Map(vec![(v, V::Bool(true))])),
    };
    expect(c, s, if amp { "members of a group as a choice" } else { "alternatives" }, &text, &v, want)
}

/// Unwraps of containers with many entries, or many unwraps.
pub fn unwraps(s: &mut Src, c: &mut Case) -> Out {
    let n = dim(s, 400);
    let j = s.us(n);
    let map = s.bool();
    let e = |i: usize| if map { format!("k{}: {}", i, i) } else { format!("{}", i) };
    let mut text = String::new();
    if s.bool() {
        let us: Vec<String> = (0..n).map(|i| format!("~u{}", i)).collect();
        text.push_str(&if map { format!("x = {{{}}}\n", us.join(", ")) } else { format!("x = [{}]\n", us.join(", ")) });
        for i in 0..n {
            text.push_str(&if map { format!("u{} = {{{}}}\n", i, e(i)) } else { format!("u{} = [{}]\n", i, e(i)) });
        }
    } else {
        let es: Vec<String> = (0..n).map(e).collect();
        let hops = s.us(20);
        text.push_str(&if map { "x = {~u0}\n".to_string() } else { "x = [~u0]\n".into() });
        for h in 0..hops {
            text.push_str(&format!("u{} = u{}\n", h, h + 1));
        }
        text.push_str(&if map { format!("u{} = {{{}}}\n", hops, es.join(", ")) } else { format!("u{} = [{}]\n", hops, es.join(", ")) });
    }
    let mut vs: Vec<V> = (0..n).map(|i| V::Int(i as i128)).collect();
    let bad = s.bool();
    if bad {
        vs[j] = V::Int(-1);
    }
    let v = if map { V::Map(shuffled(s, vs.into_iter().enumerate().map(|(i, v)| (t(&format!("k{}", i)), v)).collect())) } else { V::Arr(vs) };
    expect(c, s, "unwraps", &text, &v, if bad { Y::No } else { Y::Ok })
}

/// A text of `n` characters, of one to four bytes each.
pub fn long_text(s: &mut Src, n: usize) -> String {
    let (a, b) = (gen_char(s), gen_char(s));
    let k = 2 + s.us(9);
    (0..n).map(|i| if i % k == k - 1 { b } else { a }).collect()
}

/// A value with something large in it, of the kinds both formats have.
pub fn value(s: &mut Src, json: bool) -> V {
    let max = if s.pct(10) { 66_000 } else { 5000 };
    let n = dim(s, max);
    let v = match s.us(5) {
        0 => V::Text(long_text(s, n)),
        1 if !json => {
            let x = s.byte();
            V::Bytes((0..n).map(|i| x.wrapping_add((i / 3) as u8)).collect())
        }
        2 => {
            let k = s.us(4);
            V::Arr((0..n).map(|i| item(k, i).1).collect())
        }
        3 => V::Map((0..n).map(|i| (t(&format!("k{}", i)), V::Int(i as i128))).collect()),
        _ if !json => V::Map((0..n).map(|i| (V::Int(i as i128 - 3), V::Int(i as i128))).collect()),
        _ => V::Map((0..n.min(300)).map(|i| (t(&"k".repeat(i + 1)), V::Bool(i % 2 == 0))).collect()),
    };
    match s.us(4) {
        0 => V::Arr(vec![V::Int(1), v, V::Null]),
        1 => V::Map(vec![(t("a"), V::Int(0)), (t("b"), v)]),
        _ => v,
    }
}

/// A large value read from any of its encodings is the same value, and has the
/// verdicts that its size calls for.
pub fn encodings(s: &mut Src, c: &mut Case, json: bool) -> Out {
    let v = value(s, json);
    let want = v.to_cat();
    let same = |what: &str, r: Result<Result<cddl_cat::value::Value, cddl_cat::ValidateError>, String>| match r {
        Ok(Ok(x)) if x == want => None,
        r => Some(Out::Fail(format!("large: value {} from {}: {}", clip(&v.show()), what, clip(&format!("{:?}", r))))),
    };
    let cv = v.to_ciborium();
    if let Some(o) = same("a parsed CBOR value", api::guard(|| cddl_cat::value::Value::try_from(&cv))) {
        return o;
    }
    let b = v.cbor_alt(s);
    let dec: ciborium::Value = match ciborium::from_reader(&b[..]) {
        Ok(x) => x,
        Err(e) => return Out::Fail(format!("harness: ciborium rejects {}: {}", clip(&hex(&b)), e)),
    };
    if let Some(o) = same("CBOR bytes", api::guard(|| cddl_cat::value::Value::try_from(dec))) {
        return o;
    }
    if json {
        let jv = v.to_serde_json();
        if let Some(o) = same("a parsed JSON value", api::guard(|| cddl_cat::value::Value::try_from(&jv))) {
            return o;
        }
    }
    // one verdict by every way in, for schemas about its outermost layer
    let text = match &v {
        V::Text(x) => {
            let n = x.len();
            format!("x = tstr .size {}\n", [n, n - 1, n + 1][s.us(3)])
        }
        V::Bytes(x) => {
            let n = x.len();
            format!("x = bstr .size {}\n", [n, n - 1, n + 1][s.us(3)])
        }
        V::Arr(x) => {
            let n = x.len();
            let k = [n, n - 1, n + 1][s.us(3)];
            format!("x = [{}*{} any]\n", k, k)
        }
        V::Map(x) => {
            let n = x.len();
            let k = [n, n - 1, n + 1][s.us(3)];
            format!("x = {{{}*{} any => any}}\n", k, k)
        }
        _ => "x = any\n".into(),
    };
    // (an occurrence of k takes k, so the number must be right)
    let fits = match &v {
        V::Text(x) => text == format!("x = tstr .size {}\n", x.len()),
        V::Bytes(x) => text == format!("x = bstr .size {}\n", x.len()),
        V::Arr(x) => text.contains(&format!("[{}*", x.len())),
        V::Map(x) => text.contains(&format!("{{{}*", x.len())),
        _ => true,
    };
    let want = if fits { Y::Ok } else { Y::No };
    let mut got = vec![("CBOR", api::cbor_bytes("x", &text, &b)), ("parsed CBOR", api::run(Path::CborCtx, "x", &text, &v))];
    if json && v.json_ok() {
        got.push(("JSON", api::json_str("x", &text, &v.json_alt(s))));
        got.push(("parsed JSON", api::run(Path::JsonCtx, "x", &text, &v)));
    }
    c.execs += got.len() as u64;
    if let Some(g) = got.iter().find(|g| g.1 != want) {
        return Out::Fail(format!("large: {}value {} as {}: got {:?}, expected {:?}", text, clip(&v.show()), g.0, g.1, want));
    }
    // cut short, or followed by something
    let mut bad = b.clone();
    match s.us(4) {
        0 => bad.push(s.byte()),
        1 => {
            let k = dim(s, 5000) - 1;
            bad.extend(vec![*s.pick(&[0, 0xff, 0x20, 0xf6]); k]);
        }
        2 => bad.truncate(b.len() - 1),
        _ => bad.truncate(s.us(b.len())),
    }
    c.execs += 1;
    let got = api::cbor_bytes("x", &text, &bad);
    if got != Y::Err(K::Value) {
        return Out::Fail(format!("large: {}CBOR {} ({} bytes, made from {}): got {:?}, expected a value error", text, clip(&hex(&bad)), bad.len(), b.len(), got));
    }
    c.label("large");
    c.nontrivial(&(&b, &text));
    Out::Pass
}

/// Large items in byte strings.
pub fn embedded(s: &mut Src, c: &mut Case) -> Out {
    let v = value(s, false);
    let (good, bad) = match &v {
        V::Text(x) => (format!("tstr .size {}", x.len()), "tstr .size 1".to_string()),
        V::Bytes(x) => (format!("bstr .size {}", x.len()), "bstr .size 1".into()),
        V::Arr(x) => (format!("[{}*{} any]", x.len(), x.len()), format!("[{}* any]", x.len() + 1)),
        V::Map(x) => (format!("{{{}*{} any => any}}", x.len(), x.len()), format!("{{*{} any => any}}", x.len() - 1)),
        _ => ("any".into(), "\"never\"".into()),
    };
    let mut b = v.cbor_alt(s);
    let k = s.us(6);
    match k {
        0 => b.push(*s.pick(&[0, 0xff, 0xf6, 0x01])),
        1 => {
            let n = dim(s, 5000) - 1;
            b.extend(vec![*s.pick(&[0, 0xff, 0x20, 0xf6]); n]);
        }
        2 => {
            let n = s.us(b.len());
            b.truncate(n)
        }
        _ => {}
    }
    let right = s.pct(70);
    let ty = if right { good } else { bad };
    let want = if k >= 3 && right { Y::Ok } else { Y::No };
    let mut w = V::Bytes(b);
    let levels = s.us(3);
    let mut text = format!("x = {}\nlevel-0 = bstr .cbor ({})\n", format_args!("level-{}", levels), ty);
    for i in 0..levels {
        w = V::Bytes(w.cbor_alt(s));
        text.push_str(&format!("level-{} = bstr .cbor level-{}\n", i + 1, i));
    }
    expect(c, s, "embedded item", &text, &w, want)
}

/// Long texts against regular expressions.
pub fn regexps(s: &mut Src, c: &mut Case) -> Out {
    if s.bool() {
        // many groups in groups
        let n = if s.pct(10) { 200 } else { dim(s, 200) };
        let (o, e) = *s.pick(&[("(", ")"), ("(?:", ")"), ("(b|", ")"), ("(", "a?)"), ("(a", ")?"), ("(", "){1}")]);
        // the parser of patterns counts more than the parentheses
        let long = n.min(60);
        let n = if e == ")" && o != "(b|" { n } else { long };
        let text = format!("x = tstr .regexp \"^{}a{}$\"\n", o.repeat(n), e.repeat(n));
        let k = if s.bool() { 1 } else { s.us(n + 3) };
        let x = "a".repeat(k);
        let want = match e {
            "a?)" => 1 <= k && k <= n + 1,
            // the innermost a, with as many around as there are groups, or any smaller number
            ")?" => k <= n - 1 || k == n + 1,
            _ => k == 1,
        };
        return expect(c, s, "groups in groups of a regexp", &text, &V::Text(x), if want { Y::Ok } else { Y::No });
    }
    let max = if s.pct(10) { 66_000 } else { 3000 };
    let n = dim(s, max);
    let at = s.us(n);
    let (p, q) = *s.pick(&[("b", true), ("^b", false), ("b$", false), ("^a*$", false), ("^a*ba*$", true), ("^[ab]*$", true), ("aa*b", true), ("^a+b?a*$", true), ("c", false), ("b.*b", false)]);
    // all a but for one b
    let x: String = (0..n).map(|i| if i == at { 'b' } else { 'a' }).collect();
    let want = match p {
        "^b" => at == 0,
        "b$" => at == n - 1,
        "aa*b" | "^a+b?a*$" => at > 0,
        _ => q,
    };
    let text = format!("x = tstr .regexp \"{}\"\n", p);
    expect(c, s, "long text and a regexp", &text, &V::Text(x), if want { Y::Ok } else { Y::No })
}

/// A schema error at one of many places: reported when it is reached.
pub fn errors(s: &mut Src, c: &mut Case) -> Out {
    let n = dim(s, 400);
    let (e, j) = (s.us(n), s.us(n + 1));
    let (bad, kind) = match s.us(4) {
        0 => ("nope", K::MissingRule),
        1 => ("g", K::Generic),
        2 => ("g<int, int>", K::Generic),
        _ => ("(bool .size 1)", K::Structural),
    };
    let lit = |i: usize| if i == e { bad.to_string() } else { format!("{}", i) };
    let (text, v, reached, ok) = match s.us(5) {
        0 => (format!("x = {}\n", (0..n).map(lit).collect::<Vec<_>>().join(" / ")), V::Int(j as i128), j >= e, j < n),
        1 => (
            format!("x = [{}]\n", (0..n).map(lit).collect::<Vec<_>>().join(", ")),
            V::Arr((0..n).map(|i| V::Int(if i == j { -1 } else { i as i128 })).collect()),
            j >= e,
            false,
        ),
        2 => (
            format!("x = {{{}}}\n", (0..n).map(|i| format!("k{}: {}", i, lit(i))).collect::<Vec<_>>().join(", ")),
            V::Map((0..n).map(|i| (t(&format!("k{}", i)), V::Int(if i == j { -1 } else { i as i128 }))).collect()),
            j >= e,
            false,
        ),
        3 => (format!("x = &({})\n", (0..n).map(|i| format!("m{}: {}", i, lit(i))).collect::<Vec<_>>().join(", ")), V::Int(j as i128), j >= e, j < n),
        _ => (
            format!("x = [{}]\n", (0..n).map(|i| format!("{}, tstr", lit(i))).collect::<Vec<_>>().join(" // ")),
            V::Arr(vec![V::Int(j as i128), t("a")]),
            j >= e,
            j < n,
        ),
    };
    let want = if reached {
        Y::Err(kind)
    } else if ok {
        Y::Ok
    } else {
        Y::No
    };
    expect(c, s, "an error at one of many places", &format!("{}g<t> = t\n", text), &v, want)
}

/// Repeat some element of some list of a schema many times.
pub fn widen(s: &mut Src, sch: &mut Schema) {
    fn fill<T: Clone>(s: &mut Src, v: &mut Vec<T>, max: usize) {
        if v.is_empty() {
            return;
        }
        let n = dim(s, max);
        let i = s.us(v.len());
        let x = v[i].clone();
        let at = s.us(v.len() + 1);
        v.splice(at..at, std::iter::repeat_n(x, n));
    }
    fn w_ty(s: &mut Src, t: &mut Type, d: usize, max: usize) {
        if d == 0 || s.pct(25) {
            return fill(s, &mut t.0, max);
        }
        let i = s.us(t.0.len());
        let done = match &mut t.0[i] {
            T1::S(x) => w_t2(s, x, d - 1, max),
            T1::Range(..) => false,
            T1::Ctl(a, _, b) => {
                let x = if s.bool() { a } else { b };
                w_t2(s, x, d - 1, max)
            }
        };
        if !done {
            fill(s, &mut t.0, max)
        }
    }
    fn w_t2(s: &mut Src, t: &mut T2, d: usize, max: usize) -> bool {
        match t {
            T2::Name(_, a) | T2::Unwrap(_, a) | T2::Amp(_, a) if !a.is_empty() => {
                fill(s, a, max);
                true
            }
            T2::Paren(t) => {
                w_ty(s, t, d, max);
                true
            }
            T2::Map(g) | T2::Arr(g) | T2::AmpInline(g) => {
                w_g(s, g, d, max);
                true
            }
            _ => false,
        }
    }
    fn w_g(s: &mut Src, g: &mut Group, d: usize, max: usize) {
        if s.pct(25) || g.0.is_empty() {
            return fill(s, &mut g.0, max);
        }
        let i = s.us(g.0.len());
        let a = &mut g.0[i];
        if d == 0 || a.is_empty() || s.pct(35) {
            return fill(s, a, max);
        }
        let j = s.us(a.len());
        match &mut a[j].val {
            EV::M(_, t) => w_ty(s, t, d - 1, max),
            EV::P(g) => w_g(s, g, d - 1, max),
        }
    }
    if sch.0.is_empty() {
        return;
    }
    // not too much text altogether
    let max = (60_000 / sch.text().len().max(60)).clamp(3, 600);
    let i = s.us(sch.0.len());
    match s.us(8) {
        0 => fill(s, &mut sch.0, max),
        1 if !sch.0[i].params.is_empty() => fill(s, &mut sch.0[i].params, max),
        _ => match &mut sch.0[i].val {
            RV::T(t) => w_ty(s, t, 4, max),
            RV::G(e) => match &mut e.val {
                EV::M(_, t) => w_ty(s, t, 4, max),
                EV::P(g) => w_g(s, g, 4, max),
            },
        },
    }
}
