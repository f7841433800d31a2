//! Recursion and termination, errors in the schema, and the agreement of the
//! interfaces: C22, C23, C24.

use super::*;
use crate::api::K;
use crate::budget::Fuel;
use crate::gen::{mutate, Wrap, PNAMES};
use crate::val::*;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::ivt::RuleDef;
use cddl_cat::ValidateError;

fn nm(n: &str) -> T2 {
    T2::Name(n.into(), vec![])
}

fn un(n: &str) -> T1 {
    T1::S(T2::Unwrap(n.into(), vec![]))
}

fn ctl(a: T2, op: &str, b: T2) -> T1 {
    T1::Ctl(a, op.into(), b)
}

fn never() -> T1 {
    lit_t("\u{1}never")
}

fn rule_p(n: &str, ps: &[&str], t: Type) -> Rule {
    Rule { name: n.into(), params: ps.iter().map(|x| x.to_string()).collect(), val: RV::T(t) }
}

// -------------------------------------------------------------------- C22

pub const C22: Prop = Prop {
    id: "C22",
    rule: "(cycle) 1-6 rules that refer to each other in a ring through random edges that take no data (alias, parentheses, first \
or failing choice, generic parameter or argument, range end, limit, choice of group, group in an array or map, occurrence, unwrap, \
map key, or nothing but names), put where the data reaches them: must end in an error that is no verdict, within the work budget; (chain) names followed \
through up to 40 non-cyclic steps must decide as their target; (nest) recursive schemas (lists, trees, expressions, JSON, mutual, \
generic, unwrapped, embedded CBOR) on data nested up to 40 levels, right or damaged, must give the model's verdict, and beyond that never the wrong \
one; (empty) repetition of groups that take nothing against the model. Non-trivial: every decided case; distinct by schema and value.",
    fixed: 0,
    quick: 480_000,
    thorough: 3_000_000,
    budget: 60_000_000,
    f: c22,
};

fn c22(s: &mut Src, c: &mut Case) -> Out {
    match s.weighted(&[35, 20, 30, 15]) {
        0 => cycle(s, c),
        1 => chain(s, c),
        2 => nest(s, c),
        _ => empty(s, c),
    }
}

/// Edges between rules that stand for a type; what the data is does not
/// matter.
fn type_edge(s: &mut Src, i: usize, next: &str, rules: &mut Vec<Rule>, c: &mut Case) -> Type {
    let n = name(next);
    let aux = format!("aux-{}", i);
    match s.us(15) {
        0 => ty(n),
        1 => ty(T1::S(T2::Paren(ty(n)))),
        2 => {
            let mut os = vec![n];
            os.extend((0..1 + s.us(4)).map(|_| name(s.pick(&["any", "int", "tstr"]))));
            Type(os)
        }
        3 => {
            let mut os: Vec<T1> = (0..1 + s.us(4)).map(|_| never()).collect();
            os.push(n);
            os.extend((0..s.us(3)).map(|_| name("any")));
            Type(os)
        }
        4 => {
            c.label("through a generic");
            rules.push(rule_p(&aux, &["T"], tn("T")));
            ty(T1::S(T2::Name(aux, vec![n])))
        }
        5 => {
            c.label("through a generic");
            rules.push(rule_p(&aux, &["T"], ty(n)));
            ty(T1::S(T2::Name(aux, vec![name("int")])))
        }
        6 => {
            c.label("through a generic");
            let a2 = format!("{}b", aux);
            rules.push(rule_p(&aux, &["T", "U"], ty(T1::S(T2::Name(a2.clone(), vec![name("U")])))));
            rules.push(rule_p(&a2, &["T"], Type(vec![never(), name("T")])));
            ty(T1::S(T2::Name(aux, vec![name("int"), n])))
        }
        7 => {
            c.label("through a range");
            ty(T1::Range(T2::Lit(Lit::Int(0)), s.bool(), nm(next)))
        }
        8 => {
            c.label("through a range");
            ty(T1::Range(nm(next), s.bool(), T2::Lit(Lit::Int(9))))
        }
        9 => {
            c.label("through an operator");
            ty(ctl(nm(*s.pick(&["uint", "tstr", "bstr"])), "size", nm(next)))
        }
        10 => {
            c.label("through an operator");
            ty(ctl(nm(*s.pick(&["uint", "int", "nint"])), s.pick(&["lt", "le", "gt", "ge"]), nm(next)))
        }
        11 => {
            c.label("through an operator");
            let (op, l) = *s.pick(&[("size", 3), ("lt", 5), ("ge", -5)]);
            ty(ctl(nm(next), op, T2::Lit(Lit::Int(l))))
        }
        12 => {
            c.label("through a group");
            rules.push(rule_g(&aux, pent(grp(vec![kent(Key::Bare("k".into()), ty(n)), kent(Key::Bare("l".into()), tn("int"))]))));
            ty(T1::S(T2::Amp(aux, vec![])))
        }
        13 => {
            c.label("through a group");
            ty(T1::S(T2::AmpInline(grp(vec![kent(Key::Bare("j".into()), ty(never())), kent(Key::Bare("k".into()), ty(n))]))))
        }
        _ => {
            c.label("through a generic");
            // the parameter is called like the rule of the ring
            rules.push(rule_p(&aux, &[next], tn(next)));
            ty(T1::S(T2::Name(aux, vec![n])))
        }
    }
}

/// Edges between rules that stand for entries, before anything is taken.
fn group_edge(s: &mut Src, i: usize, next: &str, is_map: bool, rules: &mut Vec<Rule>) -> RV {
    let e = ent(tn(next));
    let aux = format!("aux-{}", i);
    let boxed = |g: Group| T1::S(if is_map { T2::Map(g) } else { T2::Arr(g) });
    let more = if is_map { kent(Key::Bare("a".into()), tn("int")) } else { ent1(name("int")) };
    let no = if is_map { kent(Key::Ty(lit_t("\u{1}no"), false), tn("any")) } else { ent1(never()) };
    match s.us(11) {
        0 => RV::G(pent(grp(vec![e]))),
        1 => RV::G(pent(grp(vec![e, more]))),
        2 => RV::G(pent(grp(vec![oent(Occ::Opt, e), more]))),
        3 => RV::G(pent(grp(vec![oent(Occ::Star, e)]))),
        4 => RV::G(pent(Group(vec![vec![e], vec![more]]))),
        5 => RV::G(pent(Group(vec![vec![no], vec![e, more]]))),
        6 => RV::G(pent(grp(vec![oent(Occ::N(Some(2), Some(7)), pent(grp(vec![e, more])))]))),
        7 => {
            rules.push(rule_t(&aux, ty(boxed(grp(vec![e, more])))));
            RV::G(pent(grp(vec![ent1(un(&aux))])))
        }
        8 => {
            // the unwrapped rule is itself behind names
            let a2 = format!("{}b", aux);
            rules.push(rule_t(&aux, ty(boxed(grp(vec![oent(Occ::Opt, e)])))));
            rules.push(rule_t(&a2, tn(&aux)));
            RV::G(pent(grp(vec![oent(Occ::Plus, ent1(un(&a2)))])))
        }
        9 => RV::T(tn(next)),
        _ => RV::G(pent(grp(vec![oent(Occ::Plus, pent(Group(vec![vec![e], vec![more]])))]))),
    }
}

fn cycle(s: &mut Src, c: &mut Case) -> Out {
    let n = 1 + s.us(6);
    let names: Vec<String> = (0..n).map(|i| format!("ring{}", i)).collect();
    let mut rules = vec![];
    let kind = s.us(5);
    let (t, v) = if s.pct(18) {
        // a ring of nothing but names, entered through something else
        c.label("cycle of names");
        let group = s.us(3);
        for i in 0..n {
            let nx = &names[(i + 1) % n];
            rules.push(match group {
                0 => rule_t(&names[i], tn(nx)),
                1 if s.bool() => rule_t(&names[i], ty(T1::S(T2::Paren(tn(nx))))),
                1 => rule_p(&names[i], &[], tn(nx)),
                _ => rule_t(&names[i], tn(nx)),
            });
        }
        match s.us(6) {
            0 | 1 => (as_t1(&type_edge(s, 99, "ring0", &mut rules, c)), gen_value(s, 1)),
            2 => (arr(vec![ent1(T1::S(T2::Unwrap("ring0".into(), vec![])))]), V::Arr(vec![V::Int(1)])),
            3 => (map(vec![ent1(T1::S(T2::Unwrap("ring0".into(), vec![])))]), V::Map(vec![(t("a"), V::Int(1))])),
            4 => (T1::S(T2::Amp("ring0".into(), vec![])), gen_value(s, 1)),
            _ => {
                let e = ent1(T1::S(T2::Amp("ring0".into(), vec![])));
                (map(vec![if s.bool() { oent(Occ::Star, e) } else { e }]), V::Map(vec![(t("a"), V::Int(1))]))
            }
        }
    } else if kind == 4 {
        // every rule of the ring is generic and hands something on
        c.label("cycle of generics");
        let np = 1 + s.us(2);
        let ps: Vec<&str> = ["T", "U"][..np].to_vec();
        for i in 0..n {
            let nx = &names[(i + 1) % n];
            let args: Vec<T1> = (0..np)
                .map(|_| match s.us(5) {
                    0 | 1 => name(s.pick(&ps)),
                    2 => name("int"),
                    3 => arr(vec![ent1(name(s.pick(&ps)))]),
                    _ => T1::S(T2::Paren(Type(vec![name("bool"), name(s.pick(&ps))]))),
                })
                .collect();
            let e = T1::S(T2::Name(nx.clone(), args));
            let t = match s.us(4) {
                0 => Type(vec![never(), e]),
                1 => ty(T1::S(T2::Paren(ty(e)))),
                _ => ty(e),
            };
            rules.push(rule_p(&names[i], &ps, t));
        }
        (T1::S(T2::Name("ring0".into(), vec![name("int"); np])), gen_value(s, 1))
    } else if kind == 0 || kind == 3 {
        for i in 0..n {
            let t = type_edge(s, i, &names[(i + 1) % n], &mut rules, c);
            rules.push(rule_t(&names[i], t));
        }
        if kind == 0 {
            c.label("cycle of types");
            // (a kind of value the operators' targets are about, or any other)
            (name("ring0"), gen_value(s, 1))
        } else {
            c.label("cycle in a map key");
            let cut = s.bool();
            let e = kent(Key::Ty(name("ring0"), cut), tn("any"));
            let e = if s.bool() { oent(*s.pick(&[Occ::Opt, Occ::Star, Occ::Plus]), e) } else { e };
            (map(vec![e]), V::Map(vec![(gen_small(s), V::Null)]))
        }
    } else if s.pct(20) {
        // only through unwraps
        c.label("cycle of unwraps");
        let is_map = kind == 2;
        for i in 0..n {
            let nx = &names[(i + 1) % n];
            let t = match s.us(3) {
                0 => name(nx),
                _ if is_map => map(vec![ent1(un(nx))]),
                _ => arr(vec![ent1(un(nx))]),
            };
            rules.push(rule_t(&names[i], ty(t)));
        }
        let e = ent1(un("ring0"));
        if is_map {
            (map(vec![e]), V::Map(vec![(t("a"), V::Int(1))]))
        } else {
            (arr(vec![e]), V::Arr(vec![V::Int(1)]))
        }
    } else {
        let is_map = kind == 2;
        c.label(if is_map { "cycle of groups in a map" } else { "cycle of groups in an array" });
        for i in 0..n {
            let v = group_edge(s, i, &names[(i + 1) % n], is_map, &mut rules);
            rules.push(Rule { name: names[i].clone(), params: vec![], val: v });
        }
        let e = ent1(name("ring0"));
        let e = if s.bool() { oent(*s.pick(&[Occ::Opt, Occ::Star, Occ::Plus]), e) } else { e };
        if is_map {
            (map(vec![e]), V::Map((0..s.us(3)).map(|i| (t(["a", "b", "c"][i]), V::Int(i as i128))).collect()))
        } else {
            (arr(vec![e]), V::Arr((0..s.us(4)).map(|i| V::Int(i as i128)).collect()))
        }
    };
    let mut w = Wrap::new(t, v);
    w.rules = rules;
    for _ in 0..s.us(3) {
        w.add(s, false);
    }
    let sch = w.schema("x");
    let text = sch.text();
    let p = Path::pick(s, &w.v);
    c.execs += 1;
    let got = api::run(p, "x", &text, &w.v);
    match &got {
        Y::Err(k) if !matches!(k, K::Parse | K::Value | K::MissingRule) => {}
        _ => return Out::Fail(format!("{}\na cycle that takes nothing: expected an error, got {:?}", show(&text, "x", &w.v), got)),
    }
    c.nontrivial(&(text.as_str(), w.v.show()));
    c.sample(|| format!("{} -> {:?}", show(&text, "x", &w.v), got));
    Out::Pass
}

fn chain(s: &mut Src, c: &mut Case) -> Out {
    let cfg = Cfg { rules: 2, depth: 1, recurse: 0, ..Cfg::default() };
    let mut g = rules::gen_for(&cfg);
    let target = ty(g.t1(s, &gen::top_cx(), 1));
    let base = Schema(vec![rule_t("last", target.clone())]);
    let (v, _) = gen::value_for(s, &base, false);
    // an array or a map can also be reached by unwrapping
    let boxed = match &target.0[0] {
        T1::S(T2::Arr(_)) => 1,
        T1::S(T2::Map(_)) => 2,
        _ => 0,
    };
    let want = api::cbor_bytes("last", &base.text(), &v.cbor());
    let mut left = *s.pick(&[2usize, 5, 12, 25, 36, 38, 39]);
    let steps = left;
    let mut rules = vec![rule_t("last", target)];
    let mut cur = "last".to_string();
    let mut i = 0;
    // (names followed so far; the first lookup is the root's and is not counted)
    while left > 2 {
        i += 1;
        let n = format!("s{}", i);
        let t = match s.us(5) {
            0 | 1 => tn(&cur),
            2 => ty(T1::S(T2::Paren(Type(vec![never(), name(&cur)])))),
            3 => {
                let a = format!("id{}", i);
                let p = s.pick(PNAMES).to_string();
                rules.push(rule_p(&a, &[&p], tn(&p)));
                left -= 1;
                ty(T1::S(T2::Name(a, vec![name(&cur)])))
            }
            _ => ty(T1::S(T2::Paren(tn(&cur)))),
        };
        left -= 1;
        rules.push(rule_t(&n, t));
        cur = n;
    }
    let mut only_alias = vec![rule_t("last", rules[0].val_type())];
    let mut ac = "last".to_string();
    for i in 1..steps - 1 {
        let n = format!("u{}", i);
        only_alias.push(rule_t(&n, tn(&ac)));
        ac = n;
    }
    rules.insert(0, rule_t("x", tn(&cur)));
    let text = Schema(rules).text();
    let p = Path::pick(s, &v);
    c.execs += 2;
    let got = api::run(p, "x", &text, &v);
    if got != want || matches!(got, Y::P(_)) {
        return Out::Fail(format!("{}\n{} names long: got {:?}; the last alone: {:?}", show(&text, "x", &v), steps, got, want));
    }
    if boxed > 0 && matches!(want, Y::Ok | Y::No) {
        let t = if boxed == 1 { arr(vec![ent1(un(&ac))]) } else { map(vec![ent1(un(&ac))]) };
        only_alias.insert(0, rule_t("x", ty(t)));
        let alone = want == Y::Ok;
        let text = Schema(only_alias).text();
        let got = api::run(p, "x", &text, &v);
        c.execs += 1;
        if (got == Y::Ok) != alone || !matches!(got, Y::Ok | Y::No) {
            return Out::Fail(format!("{}\nunwrapped through {} names: got {:?}; alone {:?}", show(&text, "x", &v), steps, got, want));
        }
        c.label("unwrapped");
    }
    c.label(if steps > 30 { "chain of more than 30" } else { "chain" });
    c.nontrivial(&(text.as_str(), v.show()));
    c.sample(|| format!("{} -> {:?}", show(&text, "x", &v), got));
    Out::Pass
}

impl Rule {
    fn val_type(&self) -> Type {
        match &self.val {
            RV::T(t) => t.clone(),
            RV::G(_) => unreachable!(),
        }
    }
}

/// A recursive schema and a value of it with `d` levels.
fn template(s: &mut Src, d: usize) -> (Schema, V, &'static str) {
    let a = |v: Vec<V>| V::Arr(v);
    let bare = |k: &str, t: Type| kent(Key::Bare(k.into()), t);
    let opt = |e: Ent| oent(Occ::Opt, e);
    let star = |e: Ent| oent(Occ::Star, e);
    let mut v;
    match s.us(12) {
        0 => {
            v = a(vec![V::Int(0)]);
            for i in 1..d {
                v = a(vec![V::Int(i as i128), v]);
            }
            (Schema(vec![rule_t("x", ty(arr(vec![ent1(name("int")), opt(ent1(name("x")))])))]), v, "list")
        }
        1 => {
            let node = |s: &mut Src, l: Option<V>, r: Option<V>| {
                let mut m = vec![(t("v"), V::Int(s.us(9) as i128))];
                if let Some(l) = l {
                    m.push((t("left"), l));
                }
                if let Some(r) = r {
                    m.push((t("right"), r));
                }
                V::Map(m)
            };
            v = node(s, None, None);
            for _ in 1..d {
                let leaf = if s.pct(30) { Some(node(s, None, None)) } else { None };
                v = if s.bool() { node(s, Some(v), leaf) } else { node(s, leaf, Some(v)) };
            }
            let sch = Schema(vec![rule_t(
                "tree",
                ty(map(vec![bare("v", tn("int")), opt(bare("left", tn("tree"))), opt(bare("right", tn("tree")))])),
            )]);
            (sch, v, "tree")
        }
        2 => {
            v = V::Int(1);
            for _ in 1..d {
                let o = t(*s.pick(&["+", "-"]));
                let l = V::Int(s.us(5) as i128);
                v = if s.bool() { a(vec![o, v, l]) } else { a(vec![o, l, v]) };
            }
            let sch = Schema(vec![
                rule_t("expr", Type(vec![name("int"), arr(vec![ent1(name("op")), ent1(name("expr")), ent1(name("expr"))])])),
                rule_t("op", Type(vec![lit_t("+"), lit_t("-")])),
            ]);
            (sch, v, "expression")
        }
        3 => {
            v = gen_small(s);
            for _ in 1..d {
                v = if s.bool() { a(vec![V::Int(1), v]) } else { V::Map(vec![(t("a"), V::Null), (t("k"), v)]) };
            }
            let sch = Schema(vec![rule_t(
                "j",
                Type(vec![
                    name("null"),
                    name("bool"),
                    name("int"),
                    name("float"),
                    name("tstr"),
                    name("bstr"),
                    arr(vec![star(ent1(name("j")))]),
                    map(vec![star(kent(Key::Ty(name("tstr"), false), tn("j")))]),
                ]),
            )]);
            (sch, v, "JSON")
        }
        4 => {
            v = V::Int(1);
            for i in 1..d {
                v = if (d - i) % 2 == 1 { a(vec![v; 1 + (i == 1) as usize]) } else { V::Map(vec![(t("k"), v)]) };
            }
            let sch = Schema(vec![
                rule_t("odd", Type(vec![name("int"), arr(vec![star(ent1(name("even")))])])),
                rule_t("even", Type(vec![name("int"), map(vec![star(kent(Key::Ty(name("tstr"), false), tn("odd")))])])),
            ]);
            (sch, v, "mutual")
        }
        5 => {
            v = a(vec![t("a")]);
            for _ in 1..d {
                v = a(vec![t("b"), v]);
            }
            let l = T1::S(T2::Name("list".into(), vec![name("T")]));
            let sch = Schema(vec![
                rule_t("x", ty(T1::S(T2::Name("list".into(), vec![name("tstr")])))),
                rule_p("list", &["T"], ty(arr(vec![ent1(name("T")), opt(ent1(l))]))),
            ]);
            (sch, v, "generic list")
        }
        6 => {
            // flat data, recursion by splicing
            v = a((0..d).map(|i| V::Int(i as i128)).collect());
            (Schema(vec![rule_t("x", ty(arr(vec![ent1(name("int")), opt(ent1(un("x")))])))]), v, "spliced list")
        }
        7 => {
            v = a((0..d).map(|i| V::Int(i as i128)).collect());
            let sch = Schema(vec![
                rule_t("x", ty(arr(vec![ent1(name("ints"))]))),
                rule_g("ints", pent(grp(vec![ent1(name("int")), opt(ent1(name("ints")))]))),
            ]);
            (sch, v, "group list")
        }
        8 => {
            v = V::Bytes(V::Int(7).cbor());
            for _ in 1..d.min(30) {
                v = V::Bytes(v.cbor());
            }
            let sch = Schema(vec![rule_t("x", Type(vec![name("int"), ctl(nm("bstr"), "cbor", nm("x"))]))]);
            (sch, v, "embedded CBOR")
        }
        9 => {
            // in keys
            v = V::Int(1);
            for _ in 1..d.min(30) {
                v = V::Map(vec![(v, V::Null)]);
            }
            let sch =
                Schema(vec![rule_t("x", Type(vec![name("int"), map(vec![kent(Key::Ty(name("x"), s.bool()), tn("null"))])]))]);
            (sch, v, "keys")
        }
        10 => {
            // the argument is wrapped anew on the way down
            v = t("e");
            for _ in 1..d {
                v = a(vec![v]);
            }
            let w = T1::S(T2::Name("w".into(), vec![name("T")]));
            let sch = Schema(vec![
                rule_t("x", ty(T1::S(T2::Name("w".into(), vec![name("tstr")])))),
                rule_p("w", &["T"], Type(vec![name("T"), arr(vec![ent1(w)])])),
            ]);
            (sch, v, "generic nest")
        }
        _ => {
            v = V::Map(vec![(t("v"), V::Int(0))]);
            for _ in 1..d {
                v = V::Map(vec![(t("v"), V::Int(1)), (t("next"), v)]);
            }
            let sch = Schema(vec![
                rule_t("x", ty(map(vec![ent1(un("base")), opt(bare("next", tn("x")))]))),
                rule_t("base", ty(map(vec![bare("v", tn("int"))]))),
            ]);
            (sch, v, "map list")
        }
    }
}

/// Replace the innermost value.
fn spoil(v: &mut V) {
    match v {
        V::Arr(x) if !x.is_empty() => {
            let i = x.iter().enumerate().max_by_key(|(_, v)| v.depth()).unwrap().0;
            spoil(&mut x[i])
        }
        V::Map(x) if !x.is_empty() => {
            let i = x.iter().enumerate().max_by_key(|(_, (k, v))| v.depth().max(k.depth())).unwrap().0;
            if x[i].0.depth() > x[i].1.depth() {
                spoil(&mut x[i].0)
            } else {
                spoil(&mut x[i].1)
            }
        }
        v => *v = V::Float(0.25),
    }
}

fn nest(s: &mut Src, c: &mut Case) -> Out {
    let deep = s.pct(25);
    let d = if deep { 42 + s.us(70) } else { 1 + s.us(40) };
    let (sch, mut v, what) = template(s, d);
    c.label(what);
    let rule = &sch.0[0].name.clone();
    if deep {
        // right, or wrong at the innermost place: the opposite verdict is excluded
        let wrong = s.bool() && !["JSON", "embedded CBOR"].contains(&what);
        if wrong {
            spoil(&mut v);
        }
        let text = sch.text();
        let p = Path::pick(s, &v);
        c.execs += 1;
        let got = api::run(p, rule, &text, &v);
        let bad = match &got {
            Y::Ok => wrong,
            Y::No => !wrong,
            Y::Err(k) => matches!(k, K::Parse | K::MissingRule | K::Generic | K::Other),
            Y::P(_) => true,
        };
        if bad {
            return Out::Fail(format!("{}\n{} levels, {}: got {:?}", show(&text, rule, &v), d, if wrong { "wrong inside" } else { "right" }, got));
        }
        c.label("beyond 40 levels");
        c.nontrivial(&(text.as_str(), v.show()));
        return Out::Pass;
    }
    match s.us(4) {
        0 => {
            for _ in 0..1 + s.us(2) {
                mutate(s, &mut v, false);
            }
        }
        1 => spoil(&mut v),
        _ => {}
    }
    match diff(c, s, &sch, &v) {
        Err(o) => o,
        Ok(d) => {
            c.label(verdict_label(d.m));
            if v.depth() > 20 {
                c.label("21-40 levels");
            }
            c.nontrivial(&(d.text.as_str(), v.show()));
            c.sample(|| format!("{} -> {:?}", show(&d.text, rule, &v), d.m));
            Out::Pass
        }
    }
}

fn empty(s: &mut Src, c: &mut Case) -> Out {
    let is_map = s.bool();
    let opt_e = |s: &mut Src| {
        let e = if is_map {
            kent(Key::Ty(lit_t(*s.pick(&["a", "b"])), false), tn("int"))
        } else {
            ent1(name(*s.pick(&["int", "tstr"])))
        };
        oent(*s.pick(&[Occ::Opt, Occ::Star, Occ::N(None, Some(2)), Occ::N(Some(0), Some(0))]), e)
    };
    let boxed = |g: Group| T1::S(if is_map { T2::Map(g) } else { T2::Arr(g) });
    let mut rules = vec![];
    let hollow = match s.us(8) {
        0 => pent(grp(vec![])),
        1 => pent(grp(vec![opt_e(s)])),
        2 => pent(Group(vec![vec![opt_e(s), opt_e(s)], vec![]])),
        3 => pent(grp(vec![oent(Occ::Star, pent(grp(vec![opt_e(s)])))])),
        4 => {
            rules.push(rule_g("hollow", pent(grp(vec![opt_e(s)]))));
            ent1(name("hollow"))
        }
        5 => {
            rules.push(rule_t("hollow", ty(boxed(grp(vec![])))));
            ent1(un("hollow"))
        }
        6 => {
            rules.push(rule_t("hollow", ty(boxed(grp(vec![opt_e(s), opt_e(s)])))));
            ent1(un("hollow"))
        }
        _ => pent(Group(vec![vec![], vec![opt_e(s)]])),
    };
    let hollow = if like_paren(&hollow) { pent(grp(vec![])) } else { hollow };
    let big = *s.pick(&[2usize, 7, 1000, 1 << 40, usize::MAX]);
    let o = *s.pick(&[
        Occ::Star,
        Occ::Plus,
        Occ::N(Some(5), None),
        Occ::N(Some(2), Some(3)),
        Occ::N(Some(big), Some(big)),
        Occ::N(Some(big), None),
        Occ::N(None, Some(big)),
    ]);
    let mut es = vec![oent(o, hollow)];
    for _ in 0..s.us(3) {
        let e = opt_e(s);
        if s.bool() {
            es.push(e)
        } else {
            es.insert(0, e)
        }
    }
    rules.insert(0, rule_t("x", ty(boxed(grp(es)))));
    let sch = Schema(rules);
    let v = if is_map {
        let mut m = vec![];
        for k in ["a", "b", "c"] {
            if s.us(3) == 0 {
                m.push((t(k), if s.pct(80) { V::Int(1) } else { V::Null }));
            }
        }
        V::Map(m)
    } else {
        V::Arr((0..s.us(5)).map(|_| if s.bool() { V::Int(1) } else { t("a") }).collect())
    };
    match diff(c, s, &sch, &v) {
        Err(o) => o,
        Ok(d) => {
            c.label("empty repetition");
            c.label(verdict_label(d.m));
            c.nontrivial(&(d.text.as_str(), v.show()));
            c.sample(|| format!("{} -> {:?}", show(&d.text, "x", &v), d.m));
            Out::Pass
        }
    }
}

fn like_paren(e: &Ent) -> bool {
    matches!(&e.val, EV::P(g) if paren_type(g).is_some())
}

// -------------------------------------------------------------------- C23

pub const C23: Prop = Prop {
    id: "C23",
    rule: "a type that is in error (undefined name at any kind of place, wrong number of generic arguments, range ends of two kinds, \
limit or target of the wrong kind behind a name, unsupported prelude type, endless reference, `&` over a member that is no group, data inside of CBOR that has no counterpart), put into 0-4 random surroundings that \
must evaluate it and that would otherwise match: the verdict must be that error's kind, through every entry point; also an undefined \
or generic root rule; also random schemas with wrong references against the model, which knows which errors are reached. \
Non-trivial: an error that is reached, or a wrong reference that is not; distinct by schema and value.",
    fixed: 0,
    quick: 600_000,
    thorough: 4_000_000,
    budget: 40_000_000,
    f: c23,
};

/// A name that differs from another in little.
fn almost(s: &mut Src, n: &str) -> String {
    let mut x = match s.us(12) {
        9 => n.trim_start_matches(['$', '@']).to_string(),
        10 => format!("{}{}", s.pick(&["$", "$$", "@", "_"]), n),
        11 => n.trim_start_matches('$').trim_start_matches(['n', 's']).to_string(),
        0 => n.to_uppercase(),
        1 => n.to_lowercase(),
        2 => format!("{}{}", n[..1].to_uppercase(), &n[1..]),
        3 => format!("{}1", n),
        4 => format!("x{}", n),
        5 => n[..n.len() - 1].to_string(),
        6 => n.replace('-', "_"),
        7 => n.replace(['-', '.', '_'], ""),
        _ => format!("{}s", n),
    };
    while x.ends_with(['-', '.']) {
        x.pop();
    }
    if x.is_empty() || x == n || !x.starts_with(|c: char| c.is_ascii_alphabetic() || "@_$".contains(c)) {
        x = format!("{}-{}", n, n);
    }
    x
}

/// A name with something about it that belongs to no name.
fn around(s: &mut Src, n: &str) -> String {
    let x = *s.pick(&[" ", "\t", "\n", "\r\n", ".", "-", "<int>", "<>", "\0", "~", "&", "#", "/", "\u{feff}", "\u{a0}", ";", "=", " = int", ",", "?", "*", "()", "\"", "'"]);
    match s.us(5) {
        0 => format!("{}{}", x, n),
        1 => format!("{}{}{}", x, n, x),
        2 => format!("{}{}{}", n, x, n),
        3 => n.chars().rev().collect::<String>() + x,
        _ => format!("{}{}", n, x),
    }
}

/// An erroneous type, a value that reaches the error, the kinds it may have.
pub fn broken(s: &mut Src, rules: &mut Vec<Rule>, c: &mut Case) -> (T1, V, &'static [K]) {
    const M: &[K] = &[K::MissingRule];
    const G: &[K] = &[K::Generic];
    const S: &[K] = &[K::Structural];
    const SU: &[K] = &[K::Structural, K::Unsupported];
    let bad = *s.pick(&["nope", "no-such-rule", "int2", "tst", "string", "K", "undef.x", "Nope", "NOPE", "no_such.Rule", "Null", "TRUE", "Any", "$nope", "$$nope", "@nope", "$$sock-et"]);
    for _ in 0..s.us(3) {
        // rules of nearly that name are no help
        let n = almost(s, bad);
        if !crate::model::is_prelude(&n) && !rules.iter().any(|r| r.name == n) {
            rules.push(rule_t(&n, tn("any")));
        }
    }
    let no = || name(bad);
    let n2 = || nm(bad);
    let some = |s: &mut Src| gen_value(s, 1);
    match s.us(10) {
        9 => {
            // data with no counterpart, which the type alone cannot decide
            c.label("tag in embedded CBOR");
            let mut b = match s.us(4) {
                0 => vec![0xd8, 0x20],
                1 => vec![0xc0 + *s.pick(&[0u8, 1, 4, 5, 21, 22, 23])],
                2 => vec![0x82, 0x01, 0xd9, 0xd9, 0xf7],
                _ => vec![0xa1, 0x61, 0x61, 0xc1],
            };
            b.extend(some(s).cbor());
            let tt = match s.us(4) {
                0 => nm("any"),
                1 => nm(*s.pick(&["int", "tstr", "bstr", "uri", "tdate"])),
                2 => T2::Arr(grp(vec![oent(Occ::Star, ent1(name("any")))])),
                _ => {
                    rules.push(rule_t("tagged", tn("any")));
                    nm("tagged")
                }
            };
            (ctl(nm(*s.pick(&["bstr", "bytes"])), "cbor", tt), V::Bytes(b), &[K::Value])
        }
        0 => {
            c.label("undefined name");
            (no(), some(s), M)
        }
        1 => {
            c.label("undefined name, in an operator or range");
            let (t, v) = match s.us(9) {
                0 => (T1::Range(n2(), s.bool(), T2::Lit(Lit::Int(5))), some(s)),
                1 => (T1::Range(T2::Lit(Lit::Int(-5)), s.bool(), n2()), some(s)),
                2 => (ctl(nm(*s.pick(&["uint", "tstr", "bstr"])), "size", n2()), some(s)),
                3 => (ctl(n2(), "size", T2::Lit(Lit::Int(2))), some(s)),
                4 => (ctl(nm(*s.pick(&["uint", "int", "nint"])), s.pick(&["lt", "le", "gt", "ge"]), n2()), some(s)),
                5 => (ctl(n2(), s.pick(&["lt", "le", "gt", "ge"]), T2::Lit(Lit::Int(2))), some(s)),
                6 => {
                    let v = some(s);
                    (ctl(nm("bstr"), "cbor", n2()), V::Bytes(v.cbor()))
                }
                7 => {
                    rules.push(rule_t("sz", ty(T1::S(n2()))));
                    (ctl(nm("uint"), "size", nm("sz")), some(s))
                }
                _ => {
                    rules.push(rule_t("lim", ty(no())));
                    (T1::Range(nm("lim"), s.bool(), T2::Lit(Lit::Int(5))), some(s))
                }
            };
            (t, v, M)
        }
        2 => {
            c.label("undefined name, among entries");
            let is_map = s.bool();
            let boxed = |es: Vec<Ent>| if is_map { map(es) } else { arr(es) };
            let data = |s: &mut Src| {
                if is_map {
                    V::Map(vec![(t("a"), gen_small(s))])
                } else {
                    V::Arr(vec![gen_small(s)])
                }
            };
            let occ = *s.pick(&[None, Some(Occ::Opt), Some(Occ::Star), Some(Occ::Plus), Some(Occ::N(None, Some(3)))]);
            let put = |e: Ent| match occ {
                Some(o) => oent(o, e),
                None => e,
            };
            match s.us(6) {
                0 => (boxed(vec![put(ent1(un(bad)))]), data(s), M),
                1 => (boxed(vec![put(ent1(no()))]), data(s), M),
                2 => {
                    rules.push(rule_t("al", tn(bad)));
                    (boxed(vec![put(ent1(un("al")))]), data(s), M)
                }
                3 => {
                    let cut = s.bool();
                    let e = kent(Key::Ty(no(), cut), tn("any"));
                    (map(vec![put(e)]), V::Map(vec![(gen_small(s), V::Null)]), M)
                }
                4 => {
                    rules.push(rule_g("gr", pent(grp(vec![put(ent1(no()))]))));
                    (boxed(vec![ent1(name("gr"))]), data(s), M)
                }
                _ => {
                    rules.push(rule_t("bx", ty(boxed(vec![put(ent1(no()))]))));
                    (boxed(vec![put(ent1(un("bx")))]), data(s), M)
                }
            }
        }
        3 => {
            c.label("undefined name, choice of group");
            let any = || tn("any");
            let k = |k: &str| Key::Bare(k.into());
            let put2 = |s: &mut Src, e: Ent| match s.us(5) {
                0 => e,
                1 => oent(Occ::Opt, e),
                2 => oent(Occ::Star, e),
                3 => oent(Occ::Plus, e),
                _ => oent(Occ::N(None, Some(2)), e),
            };
            match s.us(6) {
                // one entry of a map, chosen from a group
                3 | 4 | 5 => {
                    // entries of a map, chosen from a group of groups
                    let mut es = vec![];
                    let n = s.us(3);
                    for i in 0..n {
                        let m = format!("mg{}", i);
                        rules.push(rule_g(&m, pent(grp(vec![kent(k(&format!("a{}", i)), any())]))));
                        es.push(kent(k(&m), tn(&m)));
                    }
                    let cut = s.bool();
                    let e = match s.us(3) {
                        0 => kent(k("k"), tn(bad)),
                        1 => kent(Key::Ty(lit_t("k"), cut), tn(bad)),
                        _ => kent(Key::Ty(no(), cut), any()),
                    };
                    rules.push(rule_g("mgk", pent(grp(vec![e]))));
                    es.push(kent(k("z"), tn("mgk")));
                    if s.bool() {
                        rules.push(rule_g("mgl", pent(grp(vec![kent(k("k"), any())]))));
                        es.push(kent(k("l"), tn("mgl")));
                    }
                    let t = match s.us(3) {
                        0 => T1::S(T2::AmpInline(grp(vec![kent(k("j"), any()), ent1(name("mgk"))]))),
                        1 => {
                            rules.push(rule_g("cgk", pent(grp(es))));
                            rules.push(rule_g("cg", pent(grp(vec![ent1(name("cgk"))]))));
                            T1::S(T2::Amp("cg".into(), vec![]))
                        }
                        _ => {
                            rules.push(rule_g("cg", pent(grp(es))));
                            T1::S(T2::Amp("cg".into(), vec![]))
                        }
                    };
                    let rest = oent(Occ::Star, kent(Key::Ty(name("any"), false), any()));
                    (map(vec![put2(s, ent1(t)), rest]), V::Map(vec![(super::V::Text("k".into()), gen_small(s))]), M)
                }
                0 => (T1::S(T2::Amp(bad.into(), vec![])), some(s), M),
                1 => {
                    rules.push(rule_g("cg", pent(grp(vec![kent(Key::Bare("k".into()), tn(bad)), kent(Key::Bare("l".into()), tn("any"))]))));
                    (T1::S(T2::Amp("cg".into(), vec![])), some(s), M)
                }
                _ => {
                    let g = grp(vec![kent(Key::Bare("k".into()), tn(bad)), ent1(name("any"))]);
                    (T1::S(T2::AmpInline(g)), some(s), M)
                }
            }
        }
        4 => {
            c.label("generic arguments");
            rules.push(rule_p("one", &["T"], tn("T")));
            rules.push(rule_p("two", &["T", "U"], ty(arr(vec![ent1(name("T")), ent1(name("U"))]))));
            rules.push(rule_t("zero", tn("any")));
            match s.us(9) {
                0 => (name("one"), some(s), G),
                1 => (T1::S(T2::Name("one".into(), vec![name("int"), name("int")])), some(s), G),
                2 => (T1::S(T2::Name("zero".into(), vec![name("int")])), some(s), G),
                3 => (T1::S(T2::Name("two".into(), vec![name("any")])), some(s), G),
                4 => (T1::S(T2::Name("one".into(), vec![no()])), some(s), M),
                5 => (T1::S(T2::Name("one".into(), vec![name("one")])), some(s), G),
                6 => {
                    rules.push(Rule { name: "gg".into(), params: vec!["T".into()], val: RV::G(pent(grp(vec![kent(Key::Bare("k".into()), tn("T"))]))) });
                    (arr(vec![oent(Occ::Opt, ent1(name("gg")))]), V::Arr(vec![V::Int(1)]), G)
                }
                7 => (arr(vec![ent1(T1::S(T2::Unwrap("two".into(), vec![name("any")])))]), V::Arr(vec![V::Int(1), V::Int(2)]), G),
                _ => (T1::Range(nm("one"), true, T2::Lit(Lit::Int(5))), some(s), G),
            }
        }
        5 => {
            c.label("range of two kinds");
            rules.push(rule_t("lo", ty(lit_i(0))));
            rules.push(rule_t("hi", ty(T1::S(T2::Lit(Lit::Float(5.5))))));
            rules.push(rule_t("txt", ty(lit_t("a"))));
            let (a, b) = match s.us(5) {
                0 => (nm("lo"), nm("hi")),
                1 => (T2::Lit(Lit::Int(0)), nm("hi")),
                2 => (nm("hi"), T2::Lit(Lit::Int(9))),
                3 => (nm("lo"), nm("txt")),
                _ => (nm("lo"), nm("int")),
            };
            (T1::Range(a, s.bool(), b), some(s), SU)
        }
        6 => {
            c.label("unusable operand behind a name");
            rules.push(rule_t("txt", ty(lit_t("a"))));
            rules.push(rule_t("num", tn("int")));
            rules.push(rule_t("bo", tn("bool")));
            rules.push(rule_t("lst", ty(arr(vec![]))));
            rules.push(rule_t("fl", tn("float")));
            let op = *s.pick(&["lt", "le", "gt", "ge"]);
            let (t, v) = match s.us(8) {
                0 => (ctl(nm(*s.pick(&["uint", "int", "nint"])), op, nm("txt")), some(s)),
                1 => (ctl(nm("uint"), op, nm("num")), some(s)),
                2 => (ctl(nm("bo"), op, T2::Lit(Lit::Int(1))), some(s)),
                3 => (ctl(nm("lst"), op, T2::Lit(Lit::Int(1))), some(s)),
                4 => (ctl(nm(*s.pick(&["uint", "tstr", "bstr"])), "size", nm("txt")), some(s)),
                5 => (ctl(nm("bo"), "size", T2::Lit(Lit::Int(1))), some(s)),
                6 => (ctl(nm("lst"), "size", T2::Lit(Lit::Int(1))), some(s)),
                _ => (ctl(nm("fl"), "size", T2::Lit(Lit::Int(1))), some(s)),
            };
            (t, v, SU)
        }
        7 => {
            c.label("endless reference");
            rules.push(rule_t("loop", tn("loop2")));
            rules.push(rule_t("loop2", Type(vec![never(), name("loop")])));
            (name("loop"), some(s), S)
        }
        _ => {
            c.label("no type");
            // groups where a type is needed, and entries that cannot be
            rules.push(rule_g("gr2", pent(grp(vec![kent(Key::Bare("a".into()), tn("any")), kent(Key::Bare("b".into()), tn("any"))]))));
            rules.push(rule_t("plain", tn("int")));
            match s.us(8) {
                7 => {
                    // entries of a map chosen from a group whose member is no group
                    let b = match s.us(4) {
                        0 => map(vec![kent(Key::Bare("z".into()), tn("int"))]),
                        1 => arr(vec![ent1(name("any"))]),
                        2 => lit_t("k"),
                        _ => name("int"),
                    };
                    rules.push(rule_t("no-group", ty(b)));
                    rules.push(rule_g("gk", pent(grp(vec![kent(Key::Bare("k".into()), tn("any"))]))));
                    let mut es = vec![];
                    if s.bool() {
                        rules.push(rule_g("gn", pent(grp(vec![kent(Key::Bare("never".into()), tn("any"))]))));
                        es.push(kent(Key::Bare("n".into()), tn("gn")));
                    }
                    let keyed = es.is_empty() || s.bool();
                    es.push(if keyed { kent(Key::Bare("m".into()), tn("no-group")) } else { ent1(name("no-group")) });
                    if s.bool() {
                        es.push(kent(Key::Bare("l".into()), tn("gk")));
                    }
                    rules.push(rule_g("gr6", pent(grp(es))));
                    let e = ent1(T1::S(T2::Amp("gr6".into(), vec![])));
                    let e = if s.bool() { oent(*s.pick(&[Occ::Opt, Occ::Star, Occ::Plus]), e) } else { e };
                    (map(vec![e, oent(Occ::Star, kent(Key::Ty(name("any"), false), tn("any")))]), V::Map(vec![(t("k"), gen_small(s))]), SU)
                }
                5 | 6 => {
                    // a group of other than one member among the alternatives of `&`
                    let ga = |k: &str, n: &str| kent(Key::Bare(k.into()), tn(n));
                    let nested = match s.us(5) {
                        0 => pent(grp(vec![ga("a", "any"), ga("b", "any")])),
                        1 => pent(grp(vec![])),
                        2 => pent(grp(vec![ga("a", "any"), ga("b", "any"), ga("c", "int")])),
                        3 => pent(grp(vec![ga("a", "int"), pent(grp(vec![ga("b", "any"), ga("c", "any")]))])),
                        _ => pent(Group(vec![vec![ga("a", "any"), ga("b", "any")], vec![ga("c", "any"), ga("d", "any")]])),
                    };
                    let mut es: Vec<Ent> = (0..s.us(3)).map(|i| kent(Key::Bare(format!("n{}", i)), ty(never()))).collect();
                    es.push(nested);
                    for i in 0..s.us(2) {
                        es.push(ga(&format!("z{}", i), "any"));
                    }
                    if s.bool() {
                        (T1::S(T2::AmpInline(grp(es))), some(s), SU)
                    } else {
                        rules.push(rule_g("gr5", pent(grp(es))));
                        (T1::S(T2::Amp("gr5".into(), vec![])), some(s), SU)
                    }
                }
                0 => (T1::S(T2::Amp("plain".into(), vec![])), some(s), SU),
                3 => {
                    // a group that is no single type
                    let any = || ent1(name("any"));
                    let es = match s.us(5) {
                        0 => vec![],
                        1 => vec![any(), any()],
                        2 => vec![oent(Occ::Opt, any())],
                        3 => vec![oent(Occ::Star, any())],
                        _ => vec![kent(Key::Bare("k".into()), tn("any"))],
                    };
                    rules.push(rule_g("gr3", pent(grp(es))));
                    (map(vec![kent(Key::Bare("k".into()), tn("gr3"))]), V::Map(vec![(t("k"), gen_small(s))]), SU)
                }
                4 => {
                    rules.push(rule_g("gr4", pent(grp(vec![]))));
                    (arr(vec![kent(Key::Bare("k".into()), tn("gr4"))]), V::Arr(vec![gen_small(s)]), SU)
                }
                1 => (map(vec![ent1(name("plain"))]), V::Map(vec![]), SU),
                _ => (map(vec![kent(Key::Bare("k".into()), tn("gr2"))]), V::Map(vec![(t("k"), V::Int(1))]), SU),
            }
        }
    }
}

/// Surroundings that would match whatever the type is.
pub fn lenient(w: &mut Wrap, s: &mut Src, i: usize) -> &'static str {
    let tt = ty(w.t.clone());
    let v = std::mem::replace(&mut w.v, V::Null);
    let any = || ent1(name("any"));
    let anys = || oent(Occ::Star, ent1(name("any")));
    let rest = || oent(Occ::Star, kent(Key::Ty(name("any"), false), tn("any")));
    let k = || Key::Bare("k".into());
    match s.us(15) {
        0 => {
            w.t = T1::S(T2::Paren(Type(vec![T1::S(T2::Paren(tt)), name("any")])));
            w.v = v;
            "t / any"
        }
        1 => {
            w.t = T1::S(T2::Arr(Group(vec![vec![ent(tt)], vec![any()]])));
            w.v = V::Arr(vec![v]);
            "[t // any]"
        }
        2 => {
            w.t = arr(vec![oent(Occ::Opt, ent(tt)), anys()]);
            w.v = V::Arr(vec![v]);
            "[? t, * any]"
        }
        3 => {
            w.t = arr(vec![oent(Occ::Star, ent(tt)), anys()]);
            w.v = V::Arr(vec![v.clone(), v]);
            "[* t, * any]"
        }
        4 => {
            w.t = T1::S(T2::Arr(Group(vec![vec![pent(grp(vec![ent(tt), any()]))], vec![anys()]])));
            w.v = V::Arr(vec![v, V::Int(1)]);
            "[(t, any) // * any]"
        }
        5 => {
            w.t = map(vec![oent(Occ::Opt, kent(k(), tt)), rest()]);
            w.v = V::Map(vec![(t("k"), v)]);
            "{? k: t, * any => any}"
        }
        6 => {
            w.t = map(vec![oent(Occ::Star, kent(Key::Ty(name("tstr"), false), tt)), rest()]);
            w.v = V::Map(vec![(t("k"), v)]);
            "{* tstr => t, * any => any}"
        }
        7 => {
            w.t = map(vec![oent(*s.pick(&[Occ::Star, Occ::Opt]), kent(Key::Ty(w.t.clone(), s.bool()), tn("any"))), rest()]);
            w.v = V::Map(vec![(v, V::Int(1))]);
            "{* t => any, * any => any}"
        }
        8 => {
            w.t = T1::S(T2::Map(Group(vec![vec![kent(k(), tt)], vec![rest()]])));
            w.v = V::Map(vec![(t("k"), v)]);
            "{k: t // * any => any}"
        }
        9 => {
            let n = format!("len{}", i);
            w.rules.push(rule_t(&n, ty(arr(vec![ent(tt)]))));
            w.t = arr(vec![oent(Occ::Opt, ent1(un(&n))), anys()]);
            w.v = V::Arr(vec![v]);
            "[? ~[t], * any]"
        }
        10 => {
            let n = format!("len{}", i);
            w.rules.push(rule_t(&n, ty(map(vec![kent(Key::Ty(lit_t("k"), s.bool()), tt)]))));
            w.t = map(vec![oent(Occ::Opt, ent1(un(&n))), rest()]);
            w.v = V::Map(vec![(t("k"), v)]);
            "{? ~{k: t}, * any => any}"
        }
        11 => {
            w.t = T1::S(T2::AmpInline(grp(vec![kent(k(), tt), kent(Key::Bare("l".into()), tn("any"))])));
            w.v = v;
            "&(k: t, l: any)"
        }
        12 => {
            let n = format!("len{}", i);
            w.rules.push(rule_p(&n, &["T"], Type(vec![name("T"), name("any")])));
            w.t = T1::S(T2::Name(n, vec![w.t.clone()]));
            w.v = v;
            "either<t>"
        }
        13 => {
            w.t = T1::S(T2::Paren(Type(vec![ctl(nm("bstr"), "cbor", as_t2(&tt)), name("any")])));
            w.v = V::Bytes(v.cbor());
            "bstr .cbor t / any"
        }
        _ => {
            let n = format!("len{}", i);
            w.rules.push(rule_g(&n, pent(Group(vec![vec![kent(k(), tt)], vec![kent(Key::Ty(name("tstr"), false), tn("any"))]]))));
            if s.bool() {
                w.t = map(vec![oent(Occ::Opt, ent1(name(&n))), rest()]);
                w.v = V::Map(vec![(t("k"), v)]);
            } else {
                w.t = arr(vec![oent(Occ::Opt, ent1(name(&n))), anys()]);
                w.v = V::Arr(vec![v]);
            }
            "named group"
        }
    }
}

fn c23(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::errors(s, c);
    }
    match s.weighted(&[60, 6, 34]) {
        0 => {
            let mut rules = vec![];
            let (t, v, kinds) = broken(s, &mut rules, c);
            let mut w = Wrap::new(t, v);
            w.rules = rules;
            for i in 0..s.us(5) {
                if s.bool() {
                    let l = lenient(&mut w, s, i);
                    c.label(l);
                } else {
                    w.add(s, false);
                }
            }
            let text = w.schema("x").text();
            let p = Path::pick(s, &w.v);
            c.execs += 1;
            let got = api::run(p, "x", &text, &w.v);
            match &got {
                Y::Err(k) if kinds.contains(k) => {}
                _ => return Out::Fail(format!("{}\nvia {:?}: expected an error {:?}, got {:?}", show(&text, "x", &w.v), p, kinds, got)),
            }
            c.nontrivial(&(text.as_str(), w.v.show()));
            c.sample(|| format!("{} -> {:?}", show(&text, "x", &w.v), got));
            Out::Pass
        }
        1 => {
            let sch = gen::schema(s, &Cfg { recurse: 0, ..Cfg::default() });
            let mut text = sch.text();
            let v = gen_json_value(s, 1);
            text.push_str("gen-eric<T> = T\n");
            let (rule, want) = if s.bool() {
                ("gen-eric".to_string(), K::Generic)
            } else {
                let n = if s.bool() {
                    let r = &sch.0[s.us(sch.0.len())].name;
                    if s.bool() {
                        almost(s, r)
                    } else {
                        around(s, r)
                    }
                } else {
                    s.pick(&["", "nope", "int", "T", "any", " ", "gen-eric<int>", "x\0", "gen-erics"]).to_string()
                };
                (n, K::MissingRule)
            };
            if sch.0.iter().any(|r| r.name == rule) {
                return Out::Discard;
            }
            for p in [Path::CborBytes, Path::CborCtx, Path::JsonStr, Path::JsonCtx] {
                c.execs += 1;
                let got = api::run(p, &rule, &text, &v);
                if got != Y::Err(want) {
                    return Out::Fail(format!("{}\nvia {:?}: expected {:?}, got {:?}", show(&text, &rule, &v), p, want, got));
                }
            }
            c.label("root rule");
            c.nontrivial(&(text.as_str(), rule));
            Out::Pass
        }
        _ => {
            let cfg = Cfg { fatal: *s.pick(&[5, 10, 25]), recurse: 2, ..Cfg::default() };
            match diff_case(c, s, &cfg) {
                Err(o) => o,
                Ok((d, sch, v, _)) => {
                    let wrong = d.text.contains("no-such-rule");
                    if d.m == R::Fatal || wrong {
                        c.label(if d.m == R::Fatal { "random, reached" } else { "random, not reached" });
                        c.nontrivial(&(d.text.as_str(), v.show()));
                        c.sample(|| format!("{} -> {:?}", show(&d.text, &sch.0[0].name, &v), d.m));
                    }
                    Out::Pass
                }
            }
        }
    }
}

// -------------------------------------------------------------------- C24

pub const C24: Prop = Prop {
    id: "C24",
    rule: "a random schema and 2-6 values; the verdict of every (value, format) from the one-call interface must be given again by: \
the two-step interface in a random order with repetitions, interleaved with a second schema, from 3 threads at once on the same \
context, with the text's rules reordered, with the rules split over stacked contexts of the caller's own (with and without shadowed \
decoys), with the rule definition taken from elsewhere, and through a context that counts; afterwards the rules are unchanged. A \
context of the caller's own that fails with an error of any kind for a name that must be followed gives that error. Non-trivial: \
both a match and a mismatch among the values, or an error from the context; distinct by schema and values.",
    fixed: 0,
    quick: 64_000,
    thorough: 1_000_000,
    budget: 100_000_000,
    f: c24,
};

/// Looks a name up in several contexts in order.
struct Stack<'a>(Vec<&'a dyn LookupContext>);

impl LookupContext for Stack<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        for c in &self.0 {
            match c.lookup_rule(name) {
                Err(ValidateError::MissingRule(_)) => {}
                r => return r,
            }
        }
        Err(ValidateError::MissingRule(name.to_string()))
    }
}

/// Fails for one name.
struct Failing<'a>(&'a dyn LookupContext, &'a str, u8);

impl LookupContext for Failing<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        if name != self.1 {
            return self.0.lookup_rule(name);
        }
        Err(match self.2 {
            0 => ValidateError::Unsupported("mine".into()),
            1 => ValidateError::GenericError,
            2 => ValidateError::ValueError("mine".into()),
            3 => ValidateError::Structural("mine".into()),
            _ => ValidateError::MissingRule("mine".into()),
        })
    }
}

fn c24(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(15) {
        // errors of the caller's own context
        let v = gen_value(s, 1);
        let mut w = Wrap::new(name("outside"), v);
        for i in 0..s.us(4) {
            if s.bool() {
                lenient(&mut w, s, i);
            } else {
                w.add(s, false);
            }
        }
        w.rules.push(rule_t("outside", tn("any")));
        let text = w.schema("x").text();
        let ctx = match api::context(&text) {
            Ok(x) => x,
            Err(e) => return Out::Fail(format!("{}\n{:?}", text, e)),
        };
        let k = s.us(5) as u8;
        let f = Failing(&ctx, "outside", k);
        let want = [K::Unsupported, K::Generic, K::Value, K::Structural, K::MissingRule][k as usize];
        c.execs += 1;
        let got = if w.v.json_ok() && s.bool() { api::ctx_json("x", &f, &w.v) } else { api::ctx_cbor("x", &f, &w.v) };
        if got != Y::Err(want) {
            return Out::Fail(format!("{}\nthe context fails for `outside` with {:?}; got {:?}", show(&text, "x", &w.v), want, got));
        }
        c.label("error of the context");
        c.nontrivial(&(text.as_str(), w.v.show(), k));
        return Out::Pass;
    }
    if s.below(300) == 0 {
        return c24_long(s, c);
    }
    let json = s.pct(50);
    let cfg = Cfg { json, fatal: if s.pct(20) { 5 } else { 0 }, rules: 7, ..Cfg::default() };
    let mut sch = gen::schema(s, &cfg);
    if s.pct(25) {
        c.label("odd names");
        sch = super::rules::rename_all(s, &sch);
    }
    let text = sch.text();
    let ts: Vec<&str> =
        sch.0.iter().filter(|r| r.params.is_empty() && matches!(r.val, RV::T(_))).map(|r| r.name.as_str()).collect();
    let n = 2 + s.us(5);
    let mut jobs: Vec<(&str, V, bool)> = vec![];
    if s.pct(20) {
        // a rule that cannot stand alone is refused in the same way
        if let Some(r) = sch.0.iter().find(|r| !r.params.is_empty()) {
            c.label("generic root");
            let v = gen_value(s, 1);
            let j = v.json_ok() && s.bool();
            jobs.push((&r.name, v, j));
        }
    }
    let odd: String;
    if s.pct(20) {
        let r = s.pick(&ts).to_string();
        odd = if s.bool() { around(s, &r) } else { almost(s, &r) };
        if !sch.0.iter().any(|r| r.name == odd) {
            c.label("name that is not there");
            let v = gen_value(s, 1);
            let j = v.json_ok() && s.bool();
            let got = if j { api::json_str(&odd, &text, &v.json()) } else { api::cbor_bytes(&odd, &text, &v.cbor()) };
            if got == Y::Ok || got == Y::No {
                return Out::Fail(format!("{}\nthere is no such rule, but {:?}", show(&text, &odd, &v), got));
            }
            jobs.push((&odd, v, j));
        }
    }
    for i in 0..n {
        let rule = if i > 1 && s.bool() { *s.pick(&ts) } else { ts_first(&ts, &sch) };
        let v = if i == 0 || rule == sch.0[0].name { gen::value_for(s, &sch, json).0 } else { gen_value(s, 2) };
        if heavy(&sch, rule, &v) {
            continue;
        }
        let j = v.json_ok() && s.bool();
        jobs.push((rule, v, j));
    }
    if jobs.is_empty() {
        return Out::Discard;
    }
    let want: Vec<Y> = jobs
        .iter()
        .map(|(r, v, j)| if *j { api::json_str(r, &text, &v.json()) } else { api::cbor_bytes(r, &text, &v.cbor()) })
        .collect();
    c.execs += jobs.len() as u64;
    let ctx = match api::context(&text) {
        Ok(x) => x,
        Err(e) => {
            // both interfaces refuse it alike
            return if want.iter().all(|w| *w == e) && !matches!(e, Y::P(_)) {
                Out::Discard
            } else {
                Out::Fail(format!("schema:\n{}\ntwo-step: {:?}; one-call: {:?}", text, e, want))
            };
        }
    };
    let go = |ctx: &dyn LookupContext, i: usize| {
        let (r, v, j) = &jobs[i];
        if *j {
            api::ctx_json(r, ctx, v)
        } else {
            api::ctx_cbor(r, ctx, v)
        }
    };
    let fail = |what: &str, i: usize, got: &Y| {
        Out::Fail(format!("{}\none call: {:?}; {}: {:?}", show(&text, jobs[i].0, &jobs[i].1), want[i], what, got))
    };
    // the same rules prepared another way
    let how = s.us(4);
    match api::context_by(how, &text) {
        Ok(x) => {
            let i = s.us(jobs.len());
            let got = go(&x, i);
            c.execs += 1;
            if got != want[i] {
                return fail(["slice_flatten_from_str", "parse_cddl and flatten", "slice_parse_cddl and slice_flatten", "a copy of the rules"][how], i, &got);
            }
        }
        Err(e) => return Out::Fail(format!("schema:\n{}\nflatten_from_str accepts it; way {} gives {:?}", text, how, e)),
    }
    // a history on one context, with another schema in between
    let other = gen::schema(s, &cfg);
    let octx = api::context(&other.text()).ok();
    let ov = gen::value_for(s, &other, json).0;
    let owant = octx.as_ref().filter(|_| !heavy(&other, &other.0[0].name, &ov)).map(|o| (o, api::ctx_cbor(&other.0[0].name, o, &ov)));
    for _ in 0..jobs.len() * 2 {
        let i = s.us(jobs.len());
        let got = go(&ctx, i);
        c.execs += 1;
        if got != want[i] {
            return fail("again on a shared context", i, &got);
        }
        if s.pct(30) {
            if let Some((o, w)) = &owant {
                let got = api::ctx_cbor(&other.0[0].name, *o, &ov);
                if got != *w {
                    return Out::Fail(format!("{}\nfirst {:?}, then {:?}", show(&other.text(), &other.0[0].name, &ov), w, got));
                }
            }
        }
    }
    // threads
    if s.pct(25) {
        c.label("threads");
        let bad = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|k| {
                    let (go, ctx, want, n) = (&go, &ctx, &want, jobs.len());
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            for r in 0..2 {
                                for i in 0..n {
                                    let i = (i * (k + 1) + r) % n;
                                    let got = go(ctx, i);
                                    if got != want[i] {
                                        return Some((i, got));
                                    }
                                }
                            }
                            None
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().find_map(|h| h.join().unwrap())
        });
        if let Some((i, got)) = bad {
            return fail("from a thread", i, &got);
        }
        c.execs += 6 * jobs.len() as u64;
    }
    // reordered rules
    let pm = s.perm(sch.0.len());
    let re = Schema(pm.iter().map(|i| sch.0[*i].clone()).collect());
    // split over several contexts
    let mut parts: Vec<Vec<Rule>> = vec![vec![]; 2 + s.us(2)];
    for r in &sch.0 {
        let k = s.us(parts.len());
        let l = parts.len();
        parts[k].push(r.clone());
        if k + 1 < l && s.pct(30) {
            // a decoy of the same name further back
            parts[k + 1].push(rule_t(&r.name, tn("never-used")));
        }
    }
    for p in parts.iter_mut() {
        // (a decoy pushed before a rule of that name would replace it)
        let mut seen: Vec<String> = vec![];
        p.retain(|r| {
            let k = !seen.contains(&r.name);
            seen.push(r.name.clone());
            k
        });
        p.push(rule_t("filler", tn("int")));
    }
    let mut ok_parts = true;
    let ctxs: Vec<BasicContext> = parts
        .iter()
        .map(|p| api::context(&Schema(p.clone()).text()))
        .filter_map(|x| {
            ok_parts &= x.is_ok();
            x.ok()
        })
        .collect();
    if !ok_parts {
        return Out::Fail(format!("schema:\n{}\na part of it alone cannot be prepared: {:?}", text, parts));
    }
    let stack = Stack(ctxs.iter().map(|c| c as &dyn LookupContext).collect());
    let rctx = match api::context(&re.text()) {
        Ok(x) => x,
        Err(e) => return Out::Fail(format!("schema:\n{}\nreordered: {:?}", text, e)),
    };
    let fuel = Fuel::new(&ctx, 100_000_000);
    for i in 0..jobs.len() {
        for (what, cx) in [
            ("reordered rules", &rctx as &dyn LookupContext),
            ("stacked contexts", &stack),
            ("a context that counts", &fuel),
        ] {
            let got = go(cx, i);
            c.execs += 1;
            if got != want[i] {
                return fail(what, i, &got);
            }
        }
        // a definition that is not the context's own
        let (r, v, j) = &jobs[i];
        if let Some(def) = ctx.rules.get(*r) {
            let got = if *j {
                let d = v.to_serde_json();
                api::y(api::guard(|| cddl_cat::validate_json(def, &d, &stack)))
            } else {
                let d = v.to_ciborium();
                api::y(api::guard(|| cddl_cat::validate_cbor(def, &d, &rctx)))
            };
            c.execs += 1;
            if got != want[i] {
                return fail("definition from elsewhere", i, &got);
            }
        }
    }
    // nothing changed
    let again = api::context(&text).unwrap();
    if again.rules != ctx.rules {
        return Out::Fail(format!("schema:\n{}\nthe rules changed while validating", text));
    }
    for w in &want {
        c.label(match w {
            Y::Ok => "match",
            Y::No => "mismatch",
            _ => "error",
        });
    }
    if want.contains(&Y::Ok) && want.contains(&Y::No) {
        c.nontrivial(&(text.as_str(), format!("{:?}", jobs)));
        c.sample(|| format!("schema:\n{}\n{:?} -> {:?}", text, jobs, want));
    }
    Out::Pass
}

/// Hundreds of validations that end in some way, on one thread: the verdicts
/// at the end are those of the beginning.
fn c24_long(s: &mut Src, c: &mut Case) -> Out {
    let n = 50 + s.us(250);
    let text = format!(
        "good = [* item]\nitem = int\nbad = [* item, nope]\nworse = [* (item / nope)]\nloop = [* (item / around)]\naround = around2\naround2 = around\n\
         deep = [* box]\nbox = {{a: item2}}\nitem2 = item3\nitem3 = item\nwrap<T> = [* T]\ngen = wrap<item>\nkeys = {{* item => item}}\nmaybe = [* (item, item)]\n\
         pack = bstr .cbor good\nsel = &grp\ngrp = (a: good, b: item)\nspl = [~good, tstr]\n"
    );
    let ints = |n: usize| V::Arr((0..n).map(|i| V::Int(i as i128)).collect());
    let with = |n: usize, x: V| match ints(n) {
        V::Arr(mut a) => {
            a.push(x);
            V::Arr(a)
        }
        v => v,
    };
    let boxes = |n: usize, x: V| {
        V::Arr((0..n).map(|i| V::Map(vec![(t("a"), if i + 1 == n { x.clone() } else { V::Int(1) })])).collect())
    };
    let m = |n: usize, x: V| V::Map((0..n).map(|i| (V::Int(i as i128), if i + 1 == n { x.clone() } else { V::Int(1) })).collect());
    let jobs: Vec<(&str, V, Y)> = vec![
        ("good", ints(n), Y::Ok),
        ("good", with(n, t("x")), Y::No),
        ("bad", ints(n), Y::Err(K::MissingRule)),
        ("bad", with(n, t("x")), Y::Err(K::MissingRule)),
        ("worse", with(n, t("x")), Y::Err(K::MissingRule)),
        ("loop", with(n, t("x")), Y::Err(K::Structural)),
        ("deep", boxes(n, t("x")), Y::No),
        ("deep", boxes(n, V::Int(1)), Y::Ok),
        ("gen", with(n, t("x")), Y::No),
        ("gen", ints(n), Y::Ok),
        ("wrap", ints(n), Y::Err(K::Generic)),
        ("keys", m(n.min(100), t("x")), Y::No),
        ("keys", m(n.min(100), V::Int(1)), Y::Ok),
        ("maybe", ints(2 * n + 1), Y::No),
        ("maybe", ints(2 * n), Y::Ok),
        ("pack", V::Bytes(ints(n).cbor()), Y::Ok),
        ("pack", V::Bytes(with(n, t("x")).cbor()), Y::No),
        ("pack", V::Bytes(vec![0x9f, 1, 2]), Y::No),
        ("sel", with(n, t("x")), Y::No),
        ("sel", ints(n), Y::Ok),
        ("spl", with(n, t("x")), Y::Ok),
        ("spl", ints(n), Y::No),
        ("nope", V::Int(1), Y::Err(K::MissingRule)),
    ];
    let ctx = match api::context(&text) {
        Ok(x) => x,
        Err(e) => return Out::Fail(format!("{}\n{:?}", text, e)),
    };
    let one = s.us(jobs.len());
    let reps = 40 + s.us(200);
    let go = |i: usize, k: usize| {
        let (r, v, want) = &jobs[i];
        let got = if v.json_ok() && k % 2 == 1 { api::ctx_json(r, &ctx, v) } else { api::ctx_cbor(r, &ctx, v) };
        (got != *want).then(|| Out::Fail(format!("{}\nvalidation number {} of a history of one thread: got {:?}, expected {:?}", show(&text, r, v), k, got, want)))
    };
    for k in 0..reps {
        let i = if s.pct(80) { one } else { s.us(jobs.len()) };
        c.execs += 1;
        if let Some(f) = go(i, k) {
            return f;
        }
        if s.pct(10) {
            // a schema that cannot be read, in between
            let _ = api::context("a = [* b\n");
        }
    }
    for i in 0..jobs.len() {
        c.execs += 1;
        if let Some(f) = go(i, reps) {
            return f;
        }
    }
    c.label("long history");
    c.nontrivial(&(n, one, reps));
    Out::Pass
}

fn ts_first<'a>(ts: &[&'a str], sch: &'a Schema) -> &'a str {
    ts.iter().find(|t| **t == sch.0[0].name).copied().unwrap_or(&sch.0[0].name)
}
