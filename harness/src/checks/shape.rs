//! Arrays, maps, cuts, failed alternatives, occurrences: random schemas
//! against the reference model, and relations between schemas.

use super::*;
use crate::val::*;

pub const C02: Prop = Prop {
    id: "C02",
    rule: "random schema (array-heavy: sequences, groups, group choices, occurrences, nesting, unwraps, keyed and generic \
members), value sampled from it, mutated, or random; verdict of a random API path against the reference model. \
Non-trivial: the model decides, and the value is an array with the schema's first rule an array; distinct by schema and value.",
    fixed: 0,
    quick: 390_000,
    thorough: 4_000_000,
    budget: 20_000_000,
    f: c02,
};

fn c02(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::arrays(s, c);
    }
    let cfg = Cfg { arr: 18, map: 2, main: 1, ..Cfg::default() };
    match diff_case(c, s, &cfg) {
        Err(o) => o,
        Ok((d, sch, v, how)) => {
            if matches!(v, V::Arr(_)) && how < 2 {
                c.nontrivial(&(d.text.as_str(), v.show()));
                c.sample(|| format!("{} -> {:?}", show(&d.text, &sch.0[0].name, &v), d.m));
            }
            Out::Pass
        }
    }
}

pub const C03: Prop = Prop {
    id: "C03",
    rule: "random schema (map-heavy: bare, literal and typed keys that overlap, optional and repeated members, group \
references, inline groups, group choices, unwraps), value sampled from it, mutated, or random; verdict of a random API \
path against the reference model, which follows every possible assignment of entries to members. Non-trivial: the model \
decides and the value is a map made from the schema; distinct by schema and value.",
    fixed: 0,
    quick: 390_000,
    thorough: 4_000_000,
    budget: 20_000_000,
    f: c03,
};

fn c03(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::maps(s, c);
    }
    let cfg = Cfg { arr: 3, map: 15, main: 2, json: s.pct(30), ..Cfg::default() };
    match diff_case(c, s, &cfg) {
        Err(o) => o,
        Ok((d, sch, v, how)) => {
            if matches!(v, V::Map(_)) && how < 2 {
                c.nontrivial(&(d.text.as_str(), v.show()));
                c.sample(|| format!("{} -> {:?}", show(&d.text, &sch.0[0].name, &v), d.m));
            }
            Out::Pass
        }
    }
}

pub const C04: Prop = Prop {
    id: "C04",
    rule: "random map schema with overlapping keys, half of them cut, wildcards after specific keys, group choices and \
optional groups around cuts; alternatives within a map (`&(..)`, `&name`, `//`) of which some fail on a cut; value sampled or mutated; against the reference model. Non-trivial: a cut took effect in the \
model's run (a key matched, its value did not); distinct by schema and value.",
    fixed: 0,
    quick: 640_000,
    thorough: 4_000_000,
    budget: 20_000_000,
    f: c04,
};

fn c04(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::cuts(s, c);
    }
    if s.pct(10) {
        return c04_alts(s, c);
    }
    if s.pct(50) {
        return c04_direct(s, c);
    }
    let cfg = Cfg { arr: 2, map: 14, main: 2, cut: 55, widen: 35, rules: 4, depth: 2, ..Cfg::default() };
    match diff_case(c, s, &cfg) {
        Err(o) => o,
        Ok((d, sch, v, _)) => {
            if d.ev.cut > 0 {
                c.label("cut took effect");
                c.nontrivial(&(d.text.as_str(), v.show()));
                c.sample(|| format!("{} -> {:?}", show(&d.text, &sch.0[0].name, &v), d.m));
            }
            Out::Pass
        }
    }
}

/// Alternatives in a map, some of which fail on a cut: where the cut ends.
fn c04_alts(s: &mut Src, c: &mut Case) -> Out {
    let mut rules = vec![];
    let n = 2 + s.us(3);
    let member = |s: &mut Src| {
        let k = *s.pick(&["a", "b"]);
        let t = tn(s.pick(&["int", "tstr", "null", "any"]));
        let e = match s.us(5) {
            0 => kent(Key::Ty(name("tstr"), s.bool()), t),
            1 => kent(Key::Ty(lit_t(k), s.bool()), t),
            _ => kent(Key::Bare(k.into()), t),
        };
        match s.us(9) {
            0 => oent(Occ::Opt, e),
            1 => oent(Occ::Star, e),
            2 => oent(Occ::N(Some(2), s.pct(50).then_some(3)), e),
            3 => oent(Occ::Plus, e),
            _ => e,
        }
    };
    let form = s.us(4);
    let mut opts = vec![];
    for i in 0..n {
        let es: Vec<Ent> = (0..1 + s.us(2)).map(|_| member(s)).collect();
        let nm = format!("o{}", i);
        opts.push(match s.us(4) {
            0 | 1 => {
                rules.push(rule_t(&nm, ty(map(es))));
                ent1(T1::S(T2::Unwrap(nm.clone(), vec![])))
            }
            2 => {
                rules.push(rule_g(&nm, pent(grp(es))));
                ent1(name(&nm))
            }
            _ => es[0].clone(),
        });
    }
    let keyed = |opts: &[Ent]| -> Vec<Ent> {
        // (a key of a member of & is no key of the data)
        opts.iter()
            .enumerate()
            .map(|(i, e)| match &e.val {
                EV::M(None, t) => kent(Key::Bare(format!("n{}", i)), t.clone()),
                // (one with an occurrence stays what it is)
                _ if e.occ.is_some() && i % 2 == 0 => e.clone(),
                _ => pent(grp(vec![e.clone()])),
            })
            .collect()
    };
    let e = match form {
        0 | 1 => {
            // without a key before it the member is an entry as it stands
            ent1(T1::S(T2::AmpInline(grp(opts))))
        }
        2 => {
            rules.push(rule_g("alt", pent(grp(keyed(&opts)))));
            ent1(T1::S(T2::Amp("alt".into(), vec![])))
        }
        _ => pent(Group(opts.into_iter().map(|o| vec![o]).collect())),
    };
    let e = match s.us(4) {
        0 => oent(*s.pick(&[Occ::Opt, Occ::Star, Occ::Plus]), e),
        _ => e,
    };
    let mut es = vec![e];
    if s.bool() {
        es.push(oent(Occ::Star, kent(Key::Ty(name("tstr"), s.bool()), tn(s.pick(&["any", "int"])))));
    }
    rules.insert(0, rule_t("top", ty(map(es))));
    let mut vs = vec![];
    for k in ["a", "b", "c"] {
        if s.bool() {
            vs.push((t(k), match s.us(3) {
                0 => V::Int(1),
                1 => t("x"),
                _ => V::Null,
            }));
        }
    }
    let v = V::Map(vs);
    let sch = Schema(rules);
    match diff(c, s, &sch, &v) {
        Err(o) => o,
        Ok(d) => {
            c.label("alternatives");
            if d.ev.cut > 0 {
                c.label("alternatives, cut took effect");
                c.nontrivial(&(d.text.as_str(), v.show()));
                c.sample(|| format!("{} -> {:?}", show(&d.text, "top", &v), d.m));
            }
            Out::Pass
        }
    }
}

/// One specific member, then a wildcard that would take anything: with a cut
/// a wrong value is rejected, without it the wildcard takes the entry.
fn c04_direct(s: &mut Src, c: &mut Case) -> Out {
    let mut aux = vec![];
    let (l, kind) = match s.weighted(&[45, 20, 20, 15]) {
        0 => (Lit::Text((*s.pick(&["a", "b", "x", ""])).into()), "tstr"),
        1 => (Lit::Int(s.range(-3, 30) as i128), "int"),
        2 => (Lit::Bytes(s.pick(&[&b"a"[..], b"", b"\x01\x02"]).to_vec()), "bstr"),
        _ => (Lit::Float(*s.pick(&[0.5, 1.0, -2.0, 1e30])), "float"),
    };
    let k = match &l {
        Lit::Text(x) => V::Text(x.clone()),
        Lit::Int(i) => V::Int(*i),
        Lit::Float(f) => V::Float(*f),
        Lit::Bytes(b) => V::Bytes(b.clone()),
    };
    let lt = T1::S(T2::Lit(l.clone()));
    let other = match kind {
        "tstr" => lit_t("other"),
        "int" => lit_i(77),
        "bstr" => T1::S(T2::Lit(Lit::Bytes(b"other".to_vec()))),
        _ => T1::S(T2::Lit(Lit::Float(77.5))),
    };
    let (key, cut) = match s.us(9) {
        0 => match &l {
            Lit::Text(x) if !x.is_empty() => (Key::Bare(x.clone()), true),
            _ => (Key::Val(l.clone()), true),
        },
        1 => (Key::Val(l.clone()), true),
        2 => (Key::Ty(lt, true), true),
        3 => (Key::Ty(lt, false), false),
        n @ (4 | 5) => {
            let t = T1::S(T2::Paren(Type(if s.bool() { vec![lt, other] } else { vec![other, lt] })));
            (Key::Ty(t, n == 4), n == 4)
        }
        n @ (6 | 7) => {
            aux.push(rule_t("key-name", ty(lt)));
            (Key::Ty(name("key-name"), n == 6), n == 6)
        }
        _ => {
            aux.push(Rule { name: "same".into(), params: vec!["K".into()], val: RV::T(tn("K")) });
            let cut = s.bool();
            (Key::Ty(T1::S(T2::Name("same".into(), vec![lt])), cut), cut)
        }
    };
    let good = s.bool();
    let v = if good { V::Int(s.range(0, 5) as i128) } else { t("bad") };
    let occ = match s.us(5) {
        0 => None,
        1 => Some(Occ::Opt),
        2 => Some(Occ::Star),
        3 => Some(Occ::N(Some(0), Some(1))),
        _ => Some(Occ::Plus),
    };
    let need = matches!(occ, None | Some(Occ::Plus));
    let mut m = kent(key, tn("int"));
    m.occ = occ;
    let wild = oent(Occ::Star, kent(Key::Ty(name(if kind == "tstr" && s.bool() { "tstr" } else { "any" }), s.bool()), tn("any")));
    let present = s.pct(85);
    let mut es = vec![];
    let mut vs = vec![];
    if s.bool() {
        es.push(kent(Key::Bare("z1".into()), tn("bool")));
        vs.push((t("z1"), V::Bool(true)));
    }
    es.push(m);
    if present {
        vs.push((k.clone(), v));
    }
    if s.bool() {
        es.push(oent(Occ::Opt, kent(Key::Bare("z2".into()), tn("bool"))));
        if s.bool() {
            vs.push((t("z2"), V::Bool(false)));
        }
    }
    es.push(wild);
    for i in 0..s.us(3) {
        vs.push((t(&format!("w{}", i)), V::Null));
    }
    let want = if !present {
        !need
    } else if good {
        true
    } else {
        // the wildcard may take it only if nothing forbids it
        !cut && !need
    };
    let mut sch = Schema(vec![rule_t("top", ty(map(es)))]);
    sch.0.extend(aux);
    let mut v = V::Map(vs);
    // An enclosing container or alternative must not change that.
    match s.us(4) {
        1 => {
            sch.0[0].name = "inner".into();
            sch.0.insert(0, rule_t("top", ty(arr(vec![oent(Occ::Star, ent1(name("inner")))]))));
            v = V::Arr(vec![v]);
        }
        2 => {
            sch.0[0].name = "inner".into();
            sch.0.insert(0, rule_t("top", Type(vec![lit_t("no"), name("inner"), name("int")])));
        }
        3 => {
            // a cut inside the value of a member is not a cut of the outer map
            sch.0[0].name = "inner".into();
            sch.0.insert(
                0,
                rule_t(
                    "top",
                    ty(map(vec![
                        oent(Occ::Opt, kent(Key::Ty(lit_t("k"), false), tn("inner"))),
                        oent(Occ::Star, kent(Key::Ty(name("tstr"), false), tn("any"))),
                    ])),
                ),
            );
            v = V::Map(vec![(t("k"), v)]);
            let text = sch.text();
            c.execs += 1;
            let got = api::run(Path::pick(s, &v), "top", &text, &v);
            c.label("cut in a nested map");
            if got != Y::Ok {
                return Out::Fail(format!("{}\ngot {:?}, expected Ok", show(&text, "top", &v), got));
            }
            c.nontrivial(&(text.as_str(), v.show()));
            return Out::Pass;
        }
        _ => {}
    }
    let text = sch.text();
    c.execs += 1;
    let got = api::run(Path::pick(s, &v), "top", &text, &v);
    if got != if want { Y::Ok } else { Y::No } {
        return Out::Fail(format!("{}\ngot {:?}, expected match = {}", show(&text, "top", &v), got, want));
    }
    c.label(if cut { "direct, cut" } else { "direct, no cut" });
    if !good && present {
        c.nontrivial(&(text.as_str(), v.show()));
        c.sample(|| format!("{} -> match = {}", show(&text, "top", &v), want));
    }
    Out::Pass
}

pub const C05: Prop = Prop {
    id: "C05",
    rule: "an array or map schema and its value; relation: adding an alternative that first takes values and then cannot \
match (a group choice, an optional group, a repeated group, a type choice, an unwrapped container, possibly nested) \
before the real one leaves the verdict unchanged; also random schemas with many group choices against the reference \
model. Non-trivial: the added alternative, alone, would have taken at least one value, or the model had to go back to an \
earlier state; distinct by schema and value.",
    fixed: 0,
    quick: 360_000,
    thorough: 3_000_000,
    budget: 20_000_000,
    f: c05,
};

const NEVER: &str = "\u{2}no";

fn c05(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::rewinds(s, c);
    }
    if s.pct(10) {
        return c04_alts(s, c);
    }
    let is_map = s.bool();
    if s.pct(35) {
        let cfg = Cfg {
            arr: if is_map { 2 } else { 16 },
            map: if is_map { 14 } else { 2 },
            main: if is_map { 2 } else { 1 },
            gchoice: 60,
            cut: 25,
            occ: 45,
            ..Cfg::default()
        };
        return match diff_case(c, s, &cfg) {
            Err(o) => o,
            Ok((d, sch, v, _)) => {
                if d.ev.rollback > 0 {
                    c.label("model went back");
                    c.nontrivial(&(d.text.as_str(), v.show()));
                    c.sample(|| format!("{} -> {:?}", show(&d.text, &sch.0[0].name, &v), d.m));
                }
                Out::Pass
            }
        };
    }
    let cfg = Cfg {
        arr: if is_map { 2 } else { 12 },
        map: if is_map { 12 } else { 2 },
        main: if is_map { 2 } else { 1 },
        rules: 3,
        depth: 2,
        ..Cfg::default()
    };
    let sch = gen::schema(s, &cfg);
    let (v, _) = gen::value_for(s, &sch, false);
    let rule = sch.0[0].name.clone();
    let text = sch.text();
    let p = Path::pick(s, &v);
    if heavy(&sch, &rule, &v) {
        return Out::Discard;
    }
    let base = api::run(p, &rule, &text, &v);
    if !matches!(base, Y::Ok | Y::No) {
        return if let Y::P(m) = base { Out::Fail(format!("{}\npanic {}", show(&text, &rule, &v), m)) } else { Out::Discard };
    }
    // a group that takes some of the values and then fails
    let mut takes = 0;
    let never = |is_map: bool| {
        if is_map {
            kent(Key::Val(Lit::Text(NEVER.into())), tn("any"))
        } else {
            ent1(lit_t(NEVER))
        }
    };
    let mut es = vec![];
    match &v {
        V::Arr(a) if !is_map => {
            let n = s.us(a.len().min(6) + 1);
            for _ in 0..n {
                es.push(ent1(name("any")));
                takes += 1;
            }
            if n > 0 && s.pct(30) {
                es = vec![oent(Occ::N(Some(n), Some(n)), ent1(name("any")))];
            }
        }
        V::Map(m) if is_map => {
            for (k, _) in m.iter().take(6) {
                if s.bool() {
                    if let Some(l) = as_lit(k) {
                        es.push(kent(Key::Ty(T1::S(T2::Lit(l)), false), tn("any")));
                        takes += 1;
                    }
                }
            }
            if es.is_empty() && !m.is_empty() && s.bool() {
                es.push(oent(Occ::Plus, kent(Key::Ty(name("any"), false), tn("any"))));
                takes += 1;
            }
        }
        _ => {}
    }
    let mut rules2 = sch.0.clone();
    // where the taking happens: inline, in a nested group, behind a name, in an unwrapped container
    if takes > 0 {
        match s.us(5) {
            1 => {
                let g = grp(es);
                if paren_type(&g).is_none() || !is_map {
                    es = vec![pent(g)];
                } else {
                    es = g.0.into_iter().next().unwrap();
                }
            }
            2 => {
                if is_map || es.len() > 1 {
                    rules2.push(rule_g("taker", pent(grp(es))));
                } else {
                    rules2.push(rule_g("taker", pent(grp(vec![es[0].clone(), oent(Occ::Opt, ent1(lit_t(NEVER)))]))));
                }
                es = vec![ent1(name("taker"))];
            }
            3 => {
                let g = grp(es);
                rules2.push(rule_t("taker", ty(T1::S(if is_map { T2::Map(g) } else { T2::Arr(g) }))));
                es = vec![ent1(T1::S(T2::Unwrap("taker".into(), vec![])))];
            }
            4 => {
                // the failing group itself holds a choice whose first option fails
                let mut a = es.clone();
                a.push(never(is_map));
                es = vec![pent(Group(vec![a, es]))];
            }
            _ => {}
        }
    }
    es.push(never(is_map));
    let RV::T(Type(tv)) = &rules2[0].val else { return Out::Discard };
    let [T1::S(T2::Arr(g) | T2::Map(g))] = &tv[..] else { return Out::Discard };
    let orig = g.clone();
    let new = match s.us(7) {
        0 => {
            // a first group choice
            let mut cs = vec![es];
            cs.extend(orig.0);
            Group(cs)
        }
        1 => {
            // an optional group in front
            let o = *s.pick(&[Occ::Opt, Occ::Star, Occ::N(Some(0), Some(3))]);
            Group(orig.0.into_iter().map(|mut c| {
                c.insert(0, oent(o, pent(grp(es.clone()))));
                c
            }).collect())
        }
        2 => {
            // a choice of groups, the second empty
            Group(orig.0.into_iter().map(|mut c| {
                c.insert(0, pent(Group(vec![es.clone(), vec![]])));
                c
            }).collect())
        }
        3 => {
            // behind a name
            rules2.push(rule_g("failing", pent(grp(es))));
            Group(orig.0.into_iter().map(|mut c| {
                c.insert(0, oent(Occ::Opt, ent1(name("failing"))));
                c
            }).collect())
        }
        4 => {
            // nested twice
            let inner = pent(Group(vec![es, vec![pent(Group(vec![vec![never(is_map)], vec![never(is_map)]]))]]));
            Group(orig.0.into_iter().map(|mut c| {
                c.insert(0, oent(Occ::Opt, pent(grp(vec![inner.clone(), never(is_map)]))));
                c
            }).collect())
        }
        5 => {
            // an unwrapped container that fails
            let g = grp(es);
            rules2.push(rule_t("failing", ty(T1::S(if is_map { T2::Map(g) } else { T2::Arr(g) }))));
            Group(orig.0.into_iter().map(|mut c| {
                c.insert(0, oent(Occ::Opt, ent1(T1::S(T2::Unwrap("failing".into(), vec![])))));
                c
            }).collect())
        }
        _ => {
            // the whole type as second choice
            let first = T1::S(if is_map { T2::Map(grp(es)) } else { T2::Arr(grp(es)) });
            let second = T1::S(if is_map { T2::Map(orig.clone()) } else { T2::Arr(orig.clone()) });
            rules2[0].val = RV::T(Type(vec![first, second]));
            orig
        }
    };
    if let RV::T(Type(tv)) = &mut rules2[0].val {
        if tv.len() == 1 {
            tv[0] = T1::S(if is_map { T2::Map(new) } else { T2::Arr(new) });
        }
    }
    let sch2 = Schema(rules2);
    let text2 = sch2.text();
    if heavy(&sch2, &rule, &v) {
        return Out::Discard;
    }
    c.execs += 2;
    let got = api::run(p, &rule, &text2, &v);
    if got != base {
        return Out::Fail(format!(
            "{}\nverdict {:?}; with an alternative that cannot match added:\n{}verdict {:?}",
            show(&text, &rule, &v),
            base,
            text2,
            got
        ));
    }
    c.label(if base == Y::Ok { "match" } else { "mismatch" });
    if takes > 0 {
        c.nontrivial(&(text2.as_str(), v.show()));
        c.sample(|| format!("{} -> {:?}", show(&text2, &rule, &v), got));
    }
    Out::Pass
}

pub fn as_lit(v: &V) -> Option<Lit> {
    Some(match v {
        V::Int(i) if *i >= i64::MIN as i128 => Lit::Int(*i),
        V::Text(x) => Lit::Text(x.clone()),
        V::Float(f) => Lit::Float(*f),
        V::Bytes(b) => Lit::Bytes(b.clone()),
        _ => return None,
    })
}

pub const C06: Prop = Prop {
    id: "C06",
    rule: "an occurrence with generated bounds (?, *, +, n*m, n*, *m, with n, m around the count and large) on a value, \
a group of k values, a choice of up to 7 types, a named group, a keyed map member or a group of map members; the count of copies present is around \
the bounds; the verdict must be exactly lower <= count <= upper, and the same for equivalent spellings. Non-trivial: \
every case; distinct by schema and count.",
    fixed: 0,
    quick: 960_000,
    thorough: 3_000_000,
    budget: 20_000_000,
    f: c06,
};

/// Occurrences of something that may itself take nothing.
fn far(s: &mut Src) -> usize {
    match s.us(3) {
        0 => 50 + s.us(500),
        1 => *s.pick(&[99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 10_000, 65_535, 65_536, 1_000_000]),
        _ => *s.pick(&[1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, i64::MAX as usize, 1 << 63, usize::MAX - 1, usize::MAX]),
    }
}

fn c06_nullable(s: &mut Src, c: &mut Case) -> Out {
    let mut count = s.size(40);
    let (mut a, mut b) = (s.size(12), s.size(12));
    if s.pct(8) {
        // bounds far above the number of items
        a = far(s);
        b = a.saturating_add(s.us(3));
        count = count.min(3);
    }
    let o = *s.pick(&[Occ::Opt, Occ::Star, Occ::Plus, Occ::N(Some(a), None), Occ::N(None, Some(b)), Occ::N(Some(a), Some(b))]);
    let (lo, hi) = o.limits();
    // each repetition takes 0 to `each` items or pairs
    let (inner, each) = match s.us(4) {
        0 => (Occ::Opt, 1usize),
        1 => (Occ::Star, usize::MAX),
        2 => {
            let k = 1 + s.us(4);
            (Occ::N(None, Some(k)), k)
        }
        _ => {
            let k = 1 + s.us(4);
            (Occ::N(Some(0), Some(k)), k)
        }
    };
    let want = lo <= hi && (count == 0 || hi > 0) && count <= hi.saturating_mul(each);
    let is_map = s.bool();
    let one = oent(
        inner,
        if is_map { kent(Key::Ty(name("int"), s.bool()), tn("bool")) } else { ent1(name("int")) },
    );
    let mut rules = vec![];
    let body = match s.us(4) {
        0 => pent(grp(vec![one])),
        1 => {
            rules.push(rule_g("g", pent(grp(vec![one]))));
            ent1(name("g"))
        }
        2 => {
            rules.push(rule_t("u", ty(if is_map { map(vec![one]) } else { arr(vec![one]) })));
            ent1(T1::S(T2::Unwrap("u".into(), vec![])))
        }
        _ => pent(Group(vec![vec![ent1(lit_t("no"))].into_iter().map(|e| if is_map { kent(Key::Ty(lit_t("no"), false), tn("any")) } else { e }).collect(), vec![one]])),
    };
    let mut es = vec![oent(o, body)];
    let v = if is_map {
        es.push(kent(Key::Bare("z".into()), tn("null")));
        let mut m: Vec<(V, V)> = (0..count).map(|i| (V::Int(i as i128), V::Bool(true))).collect();
        m.push((t("z"), V::Null));
        V::Map(m)
    } else {
        es.push(ent1(name("null")));
        let mut a: Vec<V> = (0..count).map(|i| V::Int(i as i128)).collect();
        a.push(V::Null);
        V::Arr(a)
    };
    rules.insert(0, rule_t("top", ty(if is_map { map(es) } else { arr(es) })));
    let text = Schema(rules).text();
    let p = Path::pick(s, &v);
    c.execs += 1;
    let got = api::run(p, "top", &text, &v);
    if got != if want { Y::Ok } else { Y::No } {
        return Out::Fail(format!(
            "{}\n{} items, each repetition may take up to {}: got {:?}, expected match = {}",
            show(&text, "top", &v),
            count,
            each,
            got,
            want
        ));
    }
    c.label("repetitions that may be empty");
    c.nontrivial(&(text.as_str(), count));
    Out::Pass
}

fn c06(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::occurs(s, c);
    }
    if s.pct(25) {
        return c06_nullable(s, c);
    }
    let mut count = s.size(120);
    let o = match s.us(9) {
        8 => {
            count = *s.pick(&[0, 0, 1, count]);
            let lo = far(s);
            match s.us(4) {
                0 => Occ::N(Some(lo), None),
                1 => Occ::N(None, Some(lo)),
                2 => Occ::N(Some(lo), Some(lo)),
                _ => Occ::N(Some(lo), Some(lo.saturating_add(s.us(5)))),
            }
        }
        7 => {
            // (the lower bound may be above the upper)
            let lo = (count + s.us(3)).saturating_sub(1);
            Occ::N(Some(lo), Some((lo + s.us(3)).saturating_sub(1)))
        }
        0 => Occ::Opt,
        1 => Occ::Star,
        2 => Occ::Plus,
        3 => Occ::N(Some((count + s.us(4)).saturating_sub(2)), None),
        4 => Occ::N(None, Some((count + s.us(4)).saturating_sub(2))),
        5 => {
            let lo = (count + s.us(4)).saturating_sub(2);
            Occ::N(Some(lo), Some(lo + s.size(20)))
        }
        _ => {
            let hi = (count + s.us(4)).saturating_sub(2);
            Occ::N(Some(hi.saturating_sub(s.size(20))), Some(hi))
        }
    };
    let (lo, hi) = o.limits();
    let want = lo <= count && count <= hi;
    let spell = |s: &mut Src| match o {
        Occ::Opt => *s.pick(&[Occ::Opt, Occ::N(Some(0), Some(1)), Occ::N(None, Some(1))]),
        Occ::Star => *s.pick(&[Occ::Star, Occ::N(Some(0), None)]),
        Occ::Plus => *s.pick(&[Occ::Plus, Occ::N(Some(1), None)]),
        Occ::N(Some(a), None) => *s.pick(&[o, Occ::N(Some(a), Some(usize::MAX >> 1)), Occ::N(Some(a), None)]),
        Occ::N(None, Some(b)) => *s.pick(&[o, Occ::N(Some(0), Some(b))]),
        x => x,
    };
    let o2 = spell(s);
    let mut rules = vec![];
    let mut mixed: Vec<V> = vec![];
    let (is_map, body, one): (bool, Ent, Vec<V>) = match s.us(8) {
        0 | 1 => (false, ent1(name("int")), vec![V::Int(s.range(-3, 40) as i128)]),
        2 => {
            let k = 1 + s.us(3);
            let g = grp((0..k).map(|i| ent1(if i % 2 == 0 { name("int") } else { name("tstr") })).collect());
            (false, pent(g), (0..k).map(|i| if i % 2 == 0 { V::Int(i as i128) } else { t("x") }).collect())
        }
        3 => {
            rules.push(rule_g("g", pent(grp(vec![ent1(name("int")), ent1(name("bool"))]))));
            (false, ent1(name("g")), vec![V::Int(1), V::Bool(true)])
        }
        4 => {
            rules.push(rule_t("u", ty(arr(vec![ent1(lit_t("x")), ent1(name("any"))]))));
            (false, ent1(T1::S(T2::Unwrap("u".into(), vec![]))), vec![t("x"), V::Null])
        }
        5 => {
            let all = [
                (name("int"), V::Int(2)),
                (lit_t("x"), t("x")),
                (name("bool"), V::Bool(true)),
                (name("float"), V::Float(0.5)),
                (T1::S(T2::Lit(Lit::Text("y".into()))), t("y")),
                (arr(vec![]), V::Arr(vec![])),
                (name("bstr"), V::Bytes(vec![1])),
            ];
            let k = 2 + s.us(6);
            mixed = all[..k].iter().map(|x| x.1.clone()).collect();
            let ts: Vec<T1> = all[..k].iter().map(|x| x.0.clone()).collect();
            let e = match s.us(4) {
                0 => ent(Type(ts)),
                1 => pent(Group(ts.into_iter().map(|x| vec![ent1(x)]).collect())),
                2 => ent1(T1::S(T2::Paren(Type(ts)))),
                _ => {
                    rules.push(rule_t("ch", Type(ts)));
                    ent1(name("ch"))
                }
            };
            (false, e, vec![V::Int(2)])
        }
        6 => (true, kent(Key::Ty(name(*s.pick(&["int", "uint", "any"])), s.bool()), tn("bool")), vec![]),
        _ => {
            let g = grp(vec![
                kent(Key::Ty(name("int"), s.bool()), tn("bool")),
                kent(Key::Ty(name("tstr"), s.bool()), tn("int")),
            ]);
            if s.bool() {
                (true, pent(g), vec![V::Null])
            } else {
                rules.push(rule_g("g", pent(g)));
                (true, ent1(name("g")), vec![V::Null])
            }
        }
    };
    let make = |o: Occ| {
        let mut es = vec![oent(o, body.clone())];
        if !is_map {
            es.insert(0, ent1(lit_t("first")));
            es.push(ent1(name("null")));
        }
        let mut r = vec![rule_t("top", ty(if is_map { map(es) } else { arr(es) }))];
        r.extend(rules.iter().cloned());
        Schema(r)
    };
    let v = if is_map {
        let mut m = vec![];
        for i in 0..count {
            m.push((V::Int(i as i128), V::Bool(i % 2 == 0)));
            if !one.is_empty() {
                m.push((V::Text(format!("k{}", i)), V::Int(1)));
            }
        }
        V::Map(m)
    } else {
        let mut a = vec![t("first")];
        let step = s.us(4);
        for i in 0..count {
            if mixed.is_empty() {
                a.extend(one.iter().cloned());
            } else {
                a.push(mixed[(i * step + count) % mixed.len()].clone());
            }
        }
        a.push(V::Null);
        V::Arr(a)
    };
    let p = Path::pick(s, &v);
    for o in [o, o2] {
        let text = make(o).text();
        c.execs += 1;
        let got = api::run(p, "top", &text, &v);
        if got != if want { Y::Ok } else { Y::No } {
            return Out::Fail(format!(
                "{}\n{} copies, allowed {}..={}: got {:?}, expected match = {}",
                show(&text, "top", &v),
                count,
                lo,
                hi,
                got,
                want
            ));
        }
    }
    c.label(if want { "within bounds" } else if count < lo { "too few" } else { "too many" });
    c.label(if is_map { "map" } else { "array" });
    let text = make(o).text();
    c.nontrivial(&(text.as_str(), count));
    c.sample(|| format!("{}with {} copies -> match = {}", text, count, want));
    Out::Pass
}
