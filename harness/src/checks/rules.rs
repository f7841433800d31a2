//! Names, generics, unwrap, group-to-choice, type choices.

use super::*;
use crate::gen::{NAMES, PNAMES};
use crate::model::is_prelude;
use crate::val::*;
use std::collections::HashMap;

// ------------------------------------------------------------- traversal

/// Rebuild a schema part, giving every type1 and group entry to a callback
/// (bottom-up); `None` keeps it.
pub struct Walk<'f> {
    pub t1: &'f mut dyn FnMut(T1) -> T1,
    pub t2: &'f mut dyn FnMut(T2) -> T2,
}

impl Walk<'_> {
    pub fn ty(&mut self, t: &Type) -> Type {
        Type(t.0.iter().map(|x| self.w1(x)).collect())
    }
    pub fn w1(&mut self, t: &T1) -> T1 {
        let x = match t {
            T1::S(a) => match self.w2(a) {
                // a single type in parentheses that a callback put there
                T2::Paren(Type(v)) if v.len() == 1 && !matches!(a, T2::Paren(_)) => v.into_iter().next().unwrap(),
                b => T1::S(b),
            },
            T1::Range(a, i, b) => T1::Range(self.w2(a), *i, self.w2(b)),
            T1::Ctl(a, o, b) => T1::Ctl(self.w2(a), o.clone(), self.w2(b)),
        };
        (self.t1)(x)
    }
    pub fn w2(&mut self, t: &T2) -> T2 {
        let x = match t {
            T2::Lit(l) => T2::Lit(l.clone()),
            T2::Name(n, a) => T2::Name(n.clone(), a.iter().map(|x| self.w1(x)).collect()),
            T2::Paren(t) => T2::Paren(self.ty(t)),
            T2::Map(g) => T2::Map(self.group(g)),
            T2::Arr(g) => T2::Arr(self.group(g)),
            T2::Unwrap(n, a) => T2::Unwrap(n.clone(), a.iter().map(|x| self.w1(x)).collect()),
            T2::Amp(n, a) => T2::Amp(n.clone(), a.iter().map(|x| self.w1(x)).collect()),
            T2::AmpInline(g) => T2::AmpInline(self.group(g)),
        };
        (self.t2)(x)
    }
    pub fn group(&mut self, g: &Group) -> Group {
        Group(g.0.iter().map(|c| c.iter().map(|e| self.ent(e)).collect()).collect())
    }
    pub fn ent(&mut self, e: &Ent) -> Ent {
        Ent {
            occ: e.occ,
            val: match &e.val {
                EV::P(g) => EV::P(self.group(g)),
                EV::M(k, t) => EV::M(
                    k.as_ref().map(|k| match k {
                        Key::Ty(t, c) => Key::Ty(self.w1(t), *c),
                        k => k.clone(),
                    }),
                    self.ty(t),
                ),
            },
        }
    }
    pub fn rv(&mut self, v: &RV) -> RV {
        match v {
            RV::T(t) => RV::T(self.ty(t)),
            RV::G(e) => RV::G(self.ent(e)),
        }
    }
}

pub fn map_names(v: &RV, f: &mut dyn FnMut(&str) -> Option<String>) -> RV {
    Walk {
        t1: &mut |t| t,
        t2: &mut |t| match t {
            T2::Name(n, a) => T2::Name(f(&n).unwrap_or(n), a),
            T2::Unwrap(n, a) => T2::Unwrap(f(&n).unwrap_or(n), a),
            T2::Amp(n, a) => T2::Amp(f(&n).unwrap_or(n), a),
            t => t,
        },
    }
    .rv(v)
}

/// One copy of each generic rule per distinct argument list, without
/// parameters.  None: too many.
pub fn mono(s: &Schema) -> Option<Schema> {
    let mut out: Vec<Rule> = vec![];
    let mut made: HashMap<String, String> = HashMap::new();
    let mut todo: Vec<(usize, Vec<T1>, String)> = vec![];
    for (i, r) in s.0.iter().enumerate() {
        if r.params.is_empty() {
            todo.push((i, vec![], r.name.clone()));
        }
    }
    let mut n = 0;
    while let Some((i, args, new)) = todo.pop() {
        if n > 60 {
            return None;
        }
        let r = &s.0[i];
        let sub: HashMap<&str, &T1> = r.params.iter().map(|p| p.as_str()).zip(args.iter()).collect();
        let mut fresh = vec![];
        let mut odd = false;
        let val = Walk {
            t1: &mut |t| t,
            t2: &mut |t| {
                let mut inst = |n: String, a: Vec<T1>| -> (String, Vec<T1>) {
                    if a.is_empty() {
                        return (n, a);
                    }
                    let Some(j) = s.0.iter().position(|r| r.name == n && r.params.len() == a.len()) else { return (n, a) };
                    let key = format!("{} {:?}", n, a);
                    let name = made.entry(key).or_insert_with(|| {
                        let x = format!("{}-mono-{}", n, fresh_id());
                        fresh.push((j, a.clone(), x.clone()));
                        x
                    });
                    (name.clone(), vec![])
                };
                match t {
                    // a parameter hides a rule, with or without arguments
                    T2::Name(n, a) if !is_prelude(&n) => match sub.get(n.as_str()) {
                        Some(t) => match t {
                            T1::S(t2) => t2.clone(),
                            t => T2::Paren(Type(vec![(*t).clone()])),
                        },
                        None => {
                            let (n, a) = inst(n, a);
                            T2::Name(n, a)
                        }
                    },
                    T2::Unwrap(n, _) if sub.contains_key(n.as_str()) => match sub[n.as_str()] {
                        T1::S(T2::Name(n2, a2)) if !is_prelude(n2) => T2::Unwrap(n2.clone(), a2.clone()),
                        _ => {
                            odd = true;
                            T2::Unwrap(n, vec![])
                        }
                    },
                    T2::Amp(n, _) if sub.contains_key(n.as_str()) => match sub[n.as_str()] {
                        T1::S(T2::Name(n2, a2)) if !is_prelude(n2) => T2::Amp(n2.clone(), a2.clone()),
                        _ => {
                            odd = true;
                            T2::Amp(n, vec![])
                        }
                    },
                    T2::Unwrap(n, a) => {
                        let (n, a) = inst(n, a);
                        T2::Unwrap(n, a)
                    }
                    T2::Amp(n, a) => {
                        let (n, a) = inst(n, a);
                        T2::Amp(n, a)
                    }
                    t => t,
                }
            },
        }
        .rv(&r.val);
        if odd {
            return None;
        }
        n += 1;
        todo.extend(fresh);
        out.push(Rule { name: new, params: vec![], val });
    }
    // the first rule stays first
    let main = out.iter().position(|r| r.name == s.0[0].name)?;
    out.swap(0, main);
    Some(Schema(out))
}

thread_local! { static FRESH: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
fn fresh_id() -> u64 {
    FRESH.with(|f| {
        f.set(f.get() + 1);
        f.get()
    })
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "random schema with generic type, array, map and group rules whose arguments mention the caller's own parameters, \
and parameter names that collide with rule names and with other rules' parameters; relations: the verdict equals the \
reference model's (lexical scoping), equals that of the schema with every generic rule copied out per argument list, and \
does not change when parameters are renamed. Also direct templates (parameters as range ends, limits, sizes, keys, \
occurrence bodies; nested applications; towers of generic and plain rules). Non-trivial: a parameter was looked up in the model's run; distinct by schema and value.",
    fixed: 0,
    quick: 280_000,
    thorough: 4_000_000,
    budget: 20_000_000,
    f: c07,
};

fn c07(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::generics(s, c);
    }
    FRESH.with(|f| f.set(0));
    if s.pct(20) {
        return c07_direct(s, c);
    }
    let json = s.pct(25);
    let cfg = Cfg { rules: 6, depth: 2, json, cut: 20, gchoice: 10, widen: 12, ..Cfg::default() };
    let sch = if s.pct(45) {
        c.label("tower");
        tower(s)
    } else {
        gen::schema(s, &cfg)
    };
    let (v, _) = gen::value_for(s, &sch, json);
    let d = match diff(c, s, &sch, &v) {
        Ok(d) => d,
        Err(o) => return o,
    };
    c.label(verdict_label(d.m));
    let rule = sch.0[0].name.clone();
    let p = Path::pick(s, &v);
    let base = api::run(p, &rule, &d.text, &v);
    // rename parameters
    let ren = rename_params(s, &sch);
    let t2 = ren.text();
    c.execs += 2;
    let got = api::run(p, &rule, &t2, &v);
    if got != base {
        return Out::Fail(format!("{}\nverdict {:?}; parameters renamed:\n{}verdict {:?}", show(&d.text, &rule, &v), base, t2, got));
    }
    if let Some(m) = mono(&sch) {
        let t3 = m.text();
        c.execs += 1;
        let got = api::run(p, &rule, &t3, &v);
        if got != base {
            return Out::Fail(format!("{}\nverdict {:?}; generics copied out:\n{}verdict {:?}", show(&d.text, &rule, &v), base, t3, got));
        }
        c.label("compared with copies");
    }
    if d.ev.param > 0 {
        c.label("parameter looked up");
        c.nontrivial(&(d.text.as_str(), v.show()));
        c.sample(|| format!("{} -> {:?}", show(&d.text, &rule, &v), base));
    }
    Out::Pass
}

/// Generic rules that hand their parameters on to each other, inside larger
/// arguments, under the same few names.
fn tower(s: &mut Src) -> Schema {
    let pool: Vec<String> = {
        let mut v: Vec<String> = vec![];
        while v.len() < 3 {
            let mut n = s.pick(PNAMES).to_string();
            while v.contains(&n) {
                n.push('1');
            }
            v.push(n);
        }
        v
    };
    let n = 2 + s.us(4);
    let params: Vec<Vec<String>> = (0..n)
        .map(|_| {
            let k = 1 + s.us(3);
            s.perm(3).into_iter().take(k).map(|i| pool[i].clone()).collect()
        })
        .collect();
    let mut rules = vec![];
    let plain = s.pct(40);
    for i in 0..n {
        let e = tower_expr(s, i, &params, 2);
        if plain {
            // a rule without parameters on the way: names are rules again
            let mut ps = params.clone();
            ps[i] = pool.clone();
            let b = tower_expr(s, i, &ps, 2);
            rules.push(rule_t(&format!("plain{}", i), ty(b)));
        }
        let e = if plain && s.bool() { through_plain(s, i, e) } else { e };
        rules.push(Rule { name: format!("r{}", i), params: params[i].clone(), val: RV::T(ty(e)) });
    }
    if s.bool() {
        // a group rule with parameters
        let l = &params[n - 1];
        let b = vec![kent(Key::Bare("a".into()), tn(&l[0])), oent(Occ::Opt, kent(Key::Bare("b".into()), ty(tower_expr(s, n - 1, &params, 1))))];
        rules.push(Rule { name: "rg".into(), params: l.clone(), val: RV::G(pent(grp(b))) });
        let args: Vec<T1> = s.perm(l.len()).into_iter().map(|i| name(&l[i])).collect();
        let call = T1::S(T2::Name("rg".into(), args));
        let b = if s.bool() { map(vec![ent1(call)]) } else { arr(vec![ent1(call)]) };
        rules[n - 1].val = RV::T(ty(b));
    }
    for p in &pool {
        if plain {
            rules.push(rule_t(p, ty(tower_const(s))));
        } else if s.pct(30) {
            // must not be seen
            rules.push(rule_t(p, tn(s.pick(&["never-used", "bool", "int"]))));
        }
    }
    let args = params[0].iter().map(|_| if plain && s.bool() { name(&s.pick(&pool).clone()) } else { tower_const(s) }).collect();
    let top = T1::S(T2::Name("r0".into(), args));
    rules.insert(0, rule_t("top", ty(top)));
    Schema(rules)
}

/// The expression, and the plain rule of the same level.
fn through_plain(s: &mut Src, i: usize, e: T1) -> T1 {
    let p = name(&format!("plain{}", i));
    match s.us(4) {
        0 => p,
        1 => arr(vec![ent1(e), ent1(p)]),
        2 => arr(vec![ent1(p), ent1(e)]),
        _ => T1::S(T2::Paren(Type(vec![p, e]))),
    }
}

fn tower_const(s: &mut Src) -> T1 {
    match s.us(6) {
        0 => lit_i(s.range(0, 9) as i128),
        1 => lit_t(s.pick(&["a", "b", "x"])),
        2 => arr(vec![ent1(name("int"))]),
        3 => map(vec![kent(Key::Bare("a".into()), tn("tstr"))]),
        _ => name(s.pick(&["int", "tstr", "bool", "null", "float", "nint"])),
    }
}

fn tower_expr(s: &mut Src, i: usize, params: &[Vec<String>], d: usize) -> T1 {
    let p = |s: &mut Src| s.pick(&params[i]).clone();
    let more = i + 1 < params.len();
    if d == 0 {
        return if s.pct(75) { name(&p(s)) } else { tower_const(s) };
    }
    match s.weighted(&[15, 8, if more { 40 } else { 0 }, 12, 10, 8, 7]) {
        // (arguments given to a parameter have no meaning)
        0 if s.pct(12) => T1::S(T2::Name(p(s), vec![tower_const(s)])),
        0 => name(&p(s)),
        1 => tower_const(s),
        2 => {
            let j = i + 1 + s.us(params.len() - i - 1);
            let args = params[j].iter().map(|_| tower_expr(s, i, params, d - 1)).collect();
            T1::S(T2::Name(format!("r{}", j), args))
        }
        3 => {
            let n = 1 + s.us(2);
            arr((0..n).map(|_| ent1(tower_expr(s, i, params, d - 1))).collect())
        }
        4 => {
            let k = if s.bool() { Key::Bare(p(s)) } else { Key::Ty(name(&p(s)), s.bool()) };
            map(vec![kent(k, ty(tower_expr(s, i, params, d - 1)))])
        }
        5 => T1::S(T2::Paren(Type(vec![tower_expr(s, i, params, d - 1), tower_expr(s, i, params, d - 1)]))),
        _ => arr(vec![oent(*s.pick(&[Occ::Star, Occ::Plus, Occ::Opt]), ent1(tower_expr(s, i, params, d - 1)))]),
    }
}

fn rename_params(s: &mut Src, sch: &Schema) -> Schema {
    Schema(
        sch.0
            .iter()
            .map(|r| {
                if r.params.is_empty() {
                    return r.clone();
                }
                // names used in the body and not parameters must not be captured
                let mut free: Vec<String> = vec![];
                map_names(&r.val, &mut |n| {
                    if !r.params.iter().any(|p| p == n) {
                        free.push(n.to_string());
                    }
                    None
                });
                let mut new: Vec<String> = vec![];
                for _ in &r.params {
                    let mut n = if s.bool() {
                        s.pick(PNAMES).to_string()
                    } else {
                        // prefer the name of some rule
                        sch.0[s.us(sch.0.len())].name.clone()
                    };
                    while new.contains(&n) || free.contains(&n) {
                        n.push('9');
                    }
                    new.push(n);
                }
                let val = map_names(&r.val, &mut |n| r.params.iter().position(|p| p == n).map(|i| new[i].clone()));
                Rule { name: r.name.clone(), params: new, val }
            })
            .collect(),
    )
}

fn c07_direct(s: &mut Src, c: &mut Case) -> Out {
    let lo = s.range(-5, 300) as i128;
    let hi = lo + s.range(0, 300) as i128;
    let x = V::Int(*s.pick(&[lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, 255, 256]));
    let pn = |s: &mut Src| s.pick(PNAMES).to_string();
    let (a, mut b) = (pn(s), pn(s));
    while a == b {
        b.push('2');
    }
    let li = |i: i128| T1::S(T2::Lit(Lit::Int(i)));
    let n2 = |n: &str| T2::Name(n.into(), vec![]);
    // a rule with the parameters, and the arguments that mean lo and hi
    let (rule, v) = match s.us(8) {
        0 => (T1::Range(n2(&a), s.bool(), n2(&b)), x),
        1 => (T1::Ctl(n2("int"), (*s.pick(&["lt", "le", "gt", "ge"])).into(), n2(*s.pick(&[&a, &b]))), x),
        2 => {
            let args = arr(vec![ent1(name(&b)), ent1(name(&a))]);
            (args, V::Arr(vec![if s.bool() { V::Int(hi) } else { x.clone() }, V::Int(lo)]))
        }
        3 => {
            let m = map(vec![oent(Occ::Star, kent(Key::Ty(name(&a), s.bool()), tn(&b)))]);
            (m, V::Map(vec![(if s.bool() { V::Int(lo) } else { x.clone() }, if s.bool() { V::Int(hi) } else { x })]))
        }
        4 => {
            let m = arr(vec![oent(Occ::Star, ent(Type(vec![name(&a), name(&b)])))]);
            let n = s.us(5);
            (m, V::Arr((0..n).map(|_| V::Int(*s.pick(&[lo, hi, lo, hi, lo + 1]))).collect()))
        }
        5 => (T1::Ctl(n2("uint"), "size".into(), n2(&a)), V::Int(lo.abs())),
        6 => {
            let m = map(vec![kent(Key::Bare(a.clone()), tn(&a)), kent(Key::Bare(b.clone()), tn(&b))]);
            (m, V::Map(vec![(V::Text(a.clone()), V::Int(lo)), (V::Text(b.clone()), if s.pct(70) { V::Int(hi) } else { x })]))
        }
        _ => {
            let m = T1::S(T2::Arr(Group(vec![vec![ent1(name(&a)), ent1(name(&a))], vec![ent1(name(&b))]])));
            (m, V::Arr(if s.bool() { vec![V::Int(lo), if s.bool() { V::Int(lo) } else { x }] } else { vec![V::Int(hi)] }))
        }
    };
    let mut rules = vec![Rule { name: "gen-rule".into(), params: vec![a.clone(), b.clone()], val: RV::T(ty(rule)) }];
    // how the arguments reach it: directly, through constants, or through another generic rule
    let (mut aa, mut ab) = (li(lo), li(hi));
    for k in 0..s.us(3) {
        if s.bool() {
            let n = format!("{}-{}", s.pick(NAMES), k);
            rules.push(rule_t(&n, ty(aa)));
            aa = name(&n);
        } else {
            let n = format!("{}-{}", s.pick(NAMES), k);
            rules.push(rule_t(&n, ty(ab)));
            ab = name(&n);
        }
    }
    let mut call = T1::S(T2::Name("gen-rule".into(), vec![aa.clone(), ab.clone()]));
    for k in 0..s.us(3) {
        // swapped names on the way: hygiene
        let n = format!("via-{}", k);
        let inner = match call {
            T1::S(T2::Name(ref n, _)) => n.clone(),
            _ => unreachable!(),
        };
        let (p, q) = if s.bool() { (b.clone(), a.clone()) } else { (a.clone(), b.clone()) };
        rules.push(Rule {
            name: n.clone(),
            params: vec![p.clone(), q.clone()],
            val: RV::T(ty(T1::S(T2::Name(inner, vec![name(&p), name(&q)])))),
        });
        call = T1::S(T2::Name(n, vec![aa.clone(), ab.clone()]));
    }
    let mut all = vec![rule_t("top", ty(call))];
    all.extend(rules);
    // a rule that has a parameter's name must not be seen
    if s.bool() && !all.iter().any(|r| r.name == a) {
        all.push(rule_t(&a, tn("bool")));
    }
    let sch = Schema(all);
    match diff(c, s, &sch, &v) {
        Err(o) => o,
        Ok(d) => {
            c.label("template");
            c.label(verdict_label(d.m));
            c.nontrivial(&(d.text.as_str(), v.show()));
            c.sample(|| format!("{} -> {:?}", show(&d.text, "top", &v), d.m));
            Out::Pass
        }
    }
}

// -------------------------------------------------------------------- C08

pub const C08: Prop = Prop {
    id: "C08",
    rule: "random schema and value; the schema is rewritten by 1-5 of: renaming all rules (valid names of every shape, \
including ones that begin with a prelude name), reordering rules, adding unused rules, giving a subexpression a name of its \
own, turning consecutive group entries into a named group, replacing a name by its definition. Verdict before = after (and \
= model where decided). Non-trivial: the rewritten text differs and the value was made from the schema; distinct by both texts and value.",
    fixed: 0,
    quick: 220_000,
    thorough: 3_000_000,
    budget: 20_000_000,
    f: c08,
};

const ODD: &[&str] = &[
    "int-", "uint8", "n", "textX", "tstr-list", "bool.x", "null1", "nil-x", "any-1", "true-false", "false2", "float-16", "bytes.b",
    "@x", "_", "_-_", "x@y", "Q", "INT8", "Tstr", "bstr_", "regexp-1", "uri.x", "tdate9", "a.b.c", "a--b", "a-.b", "z_$", "nint-x", "e1", "E", "x0x1f", "b0b1",
    "h", "b64", "B64", "$", "$a", "$$", "$$a-1", "$$ext", "$sock", "a---b", "$int", "size", "cbor", "lt", "le", "p1", "P2", "e5", "inf", "nan", "NaN",
    // names of the prelude in another case, or nearly
    "Null", "NULL", "Nil", "True", "TRUE", "False", "Int", "Uint", "ANY", "Any", "Bool", "BOOL", "Bytes", "Text", "TEXT", "Float", "Tdate",
    "Undefined", "undef", "string", "number1", "integer1", "nul", "nulll", "tex", "boolean", "byte", "floats", "uint_", "b_str", "float_16",
];

/// The same schema with other names for its rules.
pub fn rename_all(s: &mut Src, cur: &Schema) -> Schema {
    let mut used: Vec<String> = cur.0.iter().flat_map(|r| r.params.iter().cloned()).collect();
    used.extend(cur.0.iter().map(|r| r.name.clone()));
    let mut new: HashMap<String, String> = HashMap::new();
    for r in &cur.0 {
        let x = odd_name(s, &used);
        used.push(x.clone());
        new.insert(r.name.clone(), x);
    }
    Schema(
        cur.0
            .iter()
            .map(|r| Rule {
                name: new[&r.name].clone(),
                params: r.params.clone(),
                val: map_names(&r.val, &mut |n| if r.params.iter().any(|p| p == n) { None } else { new.get(n).cloned() }),
            })
            .collect(),
    )
}

fn odd_name(s: &mut Src, used: &[String]) -> String {
    let mut n = if s.pct(70) {
        s.pick(ODD).to_string()
    } else {
        let mut n = String::new();
        n.push(*s.pick(&['a', 'Z', '_', '@', 'q', '$']));
        for _ in 0..s.size(40) {
            if s.pct(15) {
                for _ in 0..1 + s.weighted(&[60, 15, 15, 5, 5]) {
                    n.push(*s.pick(&['-', '.']));
                }
            }
            n.push(*s.pick(&['a', 'B', '0', '9', '_', '@', '$', 'z']));
        }
        n
    };
    // a name may not end in a dash or dot
    if n.ends_with('-') || n.ends_with('.') {
        n.push('x');
    }
    while is_prelude(&n) || used.contains(&n) {
        n.push('7');
    }
    used_check(&n);
    n
}

fn used_check(_: &str) {}

fn c08(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::rules(s, c);
    }
    let json = s.pct(25);
    let cfg = Cfg { rules: 6, depth: 2, json, ..Cfg::default() };
    let sch = gen::schema(s, &cfg);
    let (v, how) = gen::value_for(s, &sch, json);
    let d = match diff(c, s, &sch, &v) {
        Ok(d) => d,
        Err(o) => return o,
    };
    let p = Path::pick(s, &v);
    let mut rule = sch.0[0].name.clone();
    let base = api::run(p, &rule, &d.text, &v);
    let mut cur = sch.clone();
    let n = 1 + s.us(5);
    for k in 0..n {
        match s.us(6) {
            0 => {
                c.label("rename");
                let root = cur.0.iter().position(|r| r.name == rule).unwrap();
                cur = rename_all(s, &cur);
                rule = cur.0[root].name.clone();
            }
            1 => {
                c.label("reorder");
                let pm = s.perm(cur.0.len());
                cur = Schema(pm.into_iter().map(|i| cur.0[i].clone()).collect());
            }
            2 => {
                c.label("unused rules");
                let mut used: Vec<String> = cur.0.iter().map(|r| r.name.clone()).collect();
                used.extend(cur.0.iter().flat_map(|r| r.params.iter().cloned()));
                let x = odd_name(s, &used);
                let val = match s.us(4) {
                    0 => tn("int"),
                    1 => tn("no-such-rule"),
                    2 => ty(arr(vec![ent1(name("tstr"))])),
                    _ => tn(&rule),
                };
                let at = s.us(cur.0.len() + 1);
                cur.0.insert(at, rule_t(&x, val));
            }
            3 => extract(s, c, &mut cur, k),
            4 => extract_group(s, c, &mut cur, k),
            _ => inline(s, c, &mut cur),
        }
    }
    let text = cur.text();
    // longer chains of names may reach the nesting limit
    if open(&cur, &rule, &v) {
        return Out::Discard;
    }
    c.execs += 2;
    let got = api::run(p, &rule, &text, &v);
    if got != base {
        return Out::Fail(format!("{}\nverdict {:?}; rewritten:\n{}rule {}: verdict {:?}", show(&d.text, &sch.0[0].name, &v), base, text, rule, got));
    }
    c.label(verdict_label(d.m));
    if text != d.text && how < 2 {
        c.nontrivial(&(d.text.as_str(), text.as_str(), v.show()));
        c.sample(|| format!("{}\nrewritten:\n{}verdict {:?}", show(&d.text, &sch.0[0].name, &v), text, base));
    }
    Out::Pass
}

fn uses_amp(sch: &Schema) -> bool {
    uses(sch, |t| matches!(t, T2::Amp(..)))
}

fn uses(sch: &Schema, f: impl Fn(&T2) -> bool) -> bool {
    let mut yes = false;
    for r in &sch.0 {
        Walk {
            t1: &mut |t| t,
            t2: &mut |t| {
                yes |= f(&t);
                t
            },
        }
        .rv(&r.val);
    }
    yes
}

/// Name one T1 of a parameterless rule.
fn extract(s: &mut Src, c: &mut Case, sch: &mut Schema, k: usize) {
    let i = s.us(sch.0.len());
    if !sch.0[i].params.is_empty() {
        return;
    }
    // &group over a member that is the bare name of a type is not supported
    if matches!(sch.0[i].val, RV::G(_)) && uses_amp(sch) {
        return;
    }
    let mut n = 0;
    Walk {
        t1: &mut |t| {
            n += 1;
            t
        },
        t2: &mut |t| t,
    }
    .rv(&sch.0[i].val);
    let at = s.us(n.max(1));
    let nm = format!("{}-x{}", s.pick(ODD).trim_end_matches(['-', '.']), k);
    if sch.rule(&nm).is_some() {
        return;
    }
    let mut taken = None;
    let mut j = 0;
    let val = Walk {
        t1: &mut |t| {
            j += 1;
            // An unwrap only means something in place, and a one-item rule in
            // parentheses would be read as a group or type depending on place.
            if j - 1 == at && taken.is_none() && !matches!(t, T1::S(T2::Unwrap(..))) {
                taken = Some(t);
                return name(&nm);
            }
            t
        },
        t2: &mut |t| t,
    }
    .rv(&sch.0[i].val);
    if let Some(t) = taken {
        c.label("extract");
        sch.0[i].val = val;
        sch.0.push(rule_t(&nm, ty(t)));
    }
}

/// Name a run of entries of some group.
fn extract_group(s: &mut Src, c: &mut Case, sch: &mut Schema, k: usize) {
    let i = s.us(sch.0.len());
    if !sch.0[i].params.is_empty() {
        return;
    }
    let nm = format!("grp-y{}", k);
    if sch.rule(&nm).is_some() {
        return;
    }
    let unwrap = uses(sch, |t| matches!(t, T2::Unwrap(..)));
    let RV::T(t) = &mut sch.0[i].val else { return };
    for x in t.0.iter_mut() {
        let is_map = matches!(x, T1::S(T2::Map(_)));
        if let T1::S(T2::Arr(g) | T2::Map(g)) = x {
            let ci = s.us(g.0.len());
            let ch = &mut g.0[ci];
            if ch.len() < 2 {
                return;
            }
            let a = s.us(ch.len() - 1);
            let b = a + 2 + s.us(ch.len() - a - 1);
            // a cut ends at the edge of a group, and an unwrap would see that
            let cut = |e: &Ent| match &e.val {
                EV::M(Some(Key::Ty(_, cut)), _) => *cut,
                // (members of an inline & are entries too)
                EV::M(None, t) => t.0.iter().any(|x| matches!(x, T1::S(T2::AmpInline(_)))),
                EV::M(..) => true,
                EV::P(_) => false,
            };
            if is_map && unwrap && ch[a..b].iter().any(cut) {
                return;
            }
            let run: Vec<Ent> = ch.splice(a..b, [ent1(name(&nm))]).collect();
            c.label("extract group");
            sch.0.push(rule_g(&nm, pent(grp(run))));
            return;
        }
    }
}

/// Replace names of plain type rules by their definitions, in one rule.
fn inline(s: &mut Src, c: &mut Case, sch: &mut Schema) {
    let i = s.us(sch.0.len());
    let me = sch.0[i].clone();
    let rules = sch.0.clone();
    let pick = s.byte();
    let mut n = 0u32;
    let val = Walk {
        t1: &mut |t| match t {
            T1::S(T2::Name(ref n2, ref a)) if a.is_empty() && !is_prelude(n2) && !me.params.contains(n2) && *n2 != me.name => {
                n += 1;
                if (pick >> (n % 8)) & 1 == 0 {
                    return t;
                }
                match rules.iter().find(|r| r.name == *n2) {
                    Some(Rule { params, val: RV::T(b), .. }) if params.is_empty() => {
                        // the body must not mention a name that is a parameter here
                        let mut clash = false;
                        map_names(&RV::T(b.clone()), &mut |x| {
                            clash |= me.params.iter().any(|p| p == x);
                            None
                        });
                        if clash {
                            return t;
                        }
                        c.label("inline");
                        T1::S(T2::Paren(b.clone()))
                    }
                    _ => t,
                }
            }
            t => t,
        },
        t2: &mut |t| t,
    }
    .rv(&me.val);
    sch.0[i].val = val;
}

// -------------------------------------------------------------------- C09

pub const C09: Prop = Prop {
    id: "C09",
    rule: "an array or map schema whose entries are spliced in a second schema through ~name (directly, through alias \
rules, through a generic rule, under an occurrence, among other entries); relation: same verdict as with the entries \
written in place; a splice of a name that leads to no such container against an entry that matches nothing; also random unwrap-heavy schemas against the reference model. Non-trivial: the model went through an \
unwrap; distinct by schema and value.",
    fixed: 0,
    quick: 275_000,
    thorough: 3_000_000,
    budget: 20_000_000,
    f: c09,
};

/// All keys without cut.
fn uncut(g: &Group) -> Group {
    Group(
        g.0.iter()
            .map(|c| {
                c.iter()
                    .map(|e| Ent {
                        occ: e.occ,
                        val: match &e.val {
                            EV::P(g) => EV::P(uncut(g)),
                            EV::M(Some(k), t) => EV::M(
                                Some(match k {
                                    Key::Bare(n) => Key::Ty(lit_t(n), false),
                                    Key::Val(l) => Key::Ty(T1::S(T2::Lit(l.clone())), false),
                                    Key::Ty(t, _) => Key::Ty(t.clone(), false),
                                }),
                                t.clone(),
                            ),
                            EV::M(None, t) => EV::M(
                                None,
                                Type(
                                    t.0.iter()
                                        .map(|x| match x {
                                            T1::S(T2::AmpInline(g)) => T1::S(T2::AmpInline(uncut(g))),
                                            x => x.clone(),
                                        })
                                        .collect(),
                                ),
                            ),
                        },
                    })
                    .collect()
            })
            .collect(),
    )
}

/// A name that leads to no container of this kind: the splice matches nothing.
fn c09_wrong(s: &mut Src, c: &mut Case) -> Out {
    let is_map = s.bool();
    let k = |k: &str, t: T1| kent(Key::Bare(k.into()), ty(t));
    let int = || name("int");
    let mut rules = vec![];
    let val = match s.us(9) {
        0 => RV::T(ty(int())),
        1 => RV::T(ty(lit_t("x"))),
        2 if is_map => RV::T(Type(vec![map(vec![k("a", int())]), map(vec![k("b", int())])])),
        2 | 3 => RV::T(Type((0..2 + s.us(2)).map(|i| arr(vec![ent1([int(), name("tstr")][i % 2].clone())])).collect())),
        4 if is_map => RV::G(pent(grp(vec![k("a", int()), k("b", int())]))),
        4 | 5 => RV::G(pent(grp(vec![ent1(int()), ent1(name("tstr"))]))),
        6 if is_map => RV::T(ty(arr(vec![k("a", int())]))),
        6 => RV::T(ty(map(vec![k("a", int())]))),
        7 => RV::T(Type(vec![
            if is_map { map(vec![k("a", int())]) } else { arr(vec![ent1(int())]) },
            if is_map { arr(vec![ent1(int())]) } else { map(vec![k("a", int())]) },
        ])),
        _ => RV::T(ty(T1::Ctl(T2::Name("bstr".into(), vec![]), "cbor".into(), as_t2(&ty(if is_map { map(vec![k("a", int())]) } else { arr(vec![ent1(int())]) }))))),
    };
    let group = matches!(val, RV::G(_));
    let mut target = "u0".to_string();
    rules.push(Rule { name: target.clone(), params: vec![], val });
    for i in 0..s.us(3) {
        let n = format!("u{}", i + 1);
        rules.push(rule_t(&n, tn(&target)));
        target = n;
    }
    let mut args = vec![];
    if !group && s.pct(30) {
        rules.push(Rule { name: "w".into(), params: vec!["P".into()], val: RV::T(if s.bool() { tn("P") } else { tn(&target) }) });
        args = vec![name(&target)];
        target = "w".into();
    }
    let occ = if s.pct(40) { Some(*s.pick(&[Occ::Opt, Occ::Star, Occ::Plus, Occ::N(Some(1), Some(2))])) } else { None };
    let dead = if is_map { kent(Key::Ty(lit_t("\u{1}no"), false), tn("any")) } else { ent1(lit_t("\u{1}no")) };
    let un = ent1(T1::S(T2::Unwrap(target, args)));
    let form = s.us(4);
    let (pre, post) = (s.us(2), s.us(2));
    let mk = |mut e: Ent| -> T1 {
        let more = || if is_map { oent(Occ::Star, kent(Key::Ty(name("tstr"), false), tn("any"))) } else { oent(Occ::Star, ent1(name("any"))) };
        e.occ = occ;
        let first = if is_map { oent(Occ::Opt, k("f", int())) } else { oent(Occ::Opt, ent1(int())) };
        let mut es = vec![first; pre];
        es.push(e.clone());
        es.extend((0..post).map(|_| more()));
        let g = match form {
            0 | 1 => grp(es),
            2 => Group(vec![es, vec![more()]]),
            _ => Group(vec![vec![e], es, vec![first_alt(is_map)]]),
        };
        T1::S(if is_map { T2::Map(g) } else { T2::Arr(g) })
    };
    let with = |t: T1| {
        let mut r = vec![rule_t("top", ty(t))];
        r.extend(rules.iter().cloned());
        Schema(r).text()
    };
    let (a, b) = (with(mk(un)), with(mk(dead)));
    let v = if is_map {
        let mut m = vec![];
        for x in ["a", "b", "f"] {
            if s.bool() {
                m.push((t(x), V::Int(1)));
            }
        }
        V::Map(m)
    } else {
        let all = [V::Int(1), t("x"), V::Int(2), V::Map(vec![(t("a"), V::Int(1))]), V::Arr(vec![V::Int(1)])];
        V::Arr((0..s.us(4)).map(|_| s.pick(&all).clone()).collect())
    };
    let p = Path::pick(s, &v);
    c.execs += 2;
    let (x, y) = (api::run(p, "top", &a, &v), api::run(p, "top", &b, &v));
    if x != y || !matches!(x, Y::Ok | Y::No) {
        return Out::Fail(format!("{}\nvia {:?}: got {:?}; with an entry that matches nothing in the place of the splice: {:?}", show(&a, "top", &v), p, x, y));
    }
    c.label("splice of something else");
    c.nontrivial(&(a.as_str(), v.show()));
    c.sample(|| format!("{} -> {:?}", show(&a, "top", &v), x));
    Out::Pass
}

fn first_alt(is_map: bool) -> Ent {
    if is_map {
        kent(Key::Bare("a".into()), tn("int"))
    } else {
        ent1(name("int"))
    }
}

fn c09(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::unwraps(s, c);
    }
    if s.pct(8) {
        return c09_wrong(s, c);
    }
    let is_map = s.bool();
    if s.pct(40) {
        let cfg = Cfg {
            arr: if is_map { 2 } else { 16 },
            map: if is_map { 14 } else { 2 },
            main: if is_map { 2 } else { 1 },
            rules: 7,
            depth: 2,
            cut: 20,
            ..Cfg::default()
        };
        return match diff_case(c, s, &cfg) {
            Err(o) => o,
            Ok((d, sch, v, _)) => {
                if d.ev.unwrap > 0 {
                    c.label("random, unwrap");
                    c.nontrivial(&(d.text.as_str(), v.show()));
                    c.sample(|| format!("{} -> {:?}", show(&d.text, &sch.0[0].name, &v), d.m));
                }
                Out::Pass
            }
        };
    }
    let cfg = Cfg {
        arr: if is_map { 2 } else { 12 },
        map: if is_map { 12 } else { 2 },
        main: if is_map { 2 } else { 1 },
        rules: 3,
        depth: 2,
        cut: 20,
        widen: 15,
        json: s.pct(30),
        ..Cfg::default()
    };
    let mut sch = gen::schema(s, &cfg);
    if s.pct(15) {
        sch = rename_all(s, &sch);
    }
    let RV::T(Type(tv)) = &sch.0[0].val else { return Out::Discard };
    let [T1::S(T2::Arr(g) | T2::Map(g))] = &tv[..] else { return Out::Discard };
    let occ = if s.pct(30) { Some(*s.pick(&[Occ::Opt, Occ::Star, Occ::Plus, Occ::N(Some(1), Some(2))])) } else { None };
    let plain = g.0.len() == 1 && occ.is_none();
    // At the edge of a written group a cut ends; an unwrap adds no such edge.
    let g = if is_map && !plain { uncut(g) } else { g.clone() };
    if is_map && !plain && uses(&Schema(vec![rule_g("x", pent(g.clone()))]), |t| matches!(t, T2::Unwrap(..))) {
        return Out::Discard;
    }
    let mk = |g: Group| T1::S(if is_map { T2::Map(g) } else { T2::Arr(g) });
    let mut rules = sch.0.clone();
    rules[0].val = RV::T(ty(mk(g.clone())));
    rules[0].name = "base".into();
    let rn = sch.0[0].name.clone();
    for r in rules.iter_mut() {
        let ps = r.params.clone();
        r.val = map_names(&r.val, &mut |n| if n == rn && !ps.iter().any(|p| p == n) { Some("base".into()) } else { None });
    }
    let RV::T(Type(tv)) = &rules[0].val else { return Out::Discard };
    let [T1::S(T2::Arr(g) | T2::Map(g))] = &tv[..] else { return Out::Discard };
    let g = g.clone();
    // entries around
    let extra = |s: &mut Src, i: usize| {
        if is_map {
            let k = ["e1", "e2", "e3", "e4"][i % 4];
            let e = kent(Key::Ty(lit_t(k), s.bool()), tn("int"));
            if s.bool() {
                oent(Occ::Opt, e)
            } else {
                e
            }
        } else {
            let e = ent1(lit_t(["p", "q"][i % 2]));
            if s.bool() {
                oent(*s.pick(&[Occ::Opt, Occ::Star]), e)
            } else {
                e
            }
        }
    };
    let pre: Vec<Ent> = (0..s.us(3)).map(|i| extra(s, i)).collect();
    let post: Vec<Ent> = (0..s.us(3)).map(|i| extra(s, i + 2)).collect();
    // how it is named
    let mut target = ("base".to_string(), vec![]);
    let mut rules_u = rules.clone();
    for i in 0..s.us(3) {
        let n = format!("alias-{}", i);
        rules_u.push(rule_t(&n, ty(T1::S(T2::Name(target.0.clone(), target.1.clone())))));
        target = (n, vec![]);
    }
    let generic = s.pct(25);
    if generic && target.0 == "base" {
        // one of the names in it may be the parameter
        let val = map_names(&rules[0].val, &mut |n| if n == "int" { Some("GP".into()) } else { None });
        rules_u.push(Rule { name: "gbase".into(), params: vec!["GP".into()], val });
        target = ("gbase".into(), vec![name("int")]);
    }
    // the splice is inside another generic rule, which hands its own argument on
    let outer = s.pct(40);
    let mut op = "OP".to_string();
    if outer && generic && !target.1.is_empty() {
        op = s.pick(&["OP", "GP", "base", "int-x"]).to_string();
        target.1 = vec![name(&op)];
    }
    let un = Ent { occ, val: EV::M(None, ty(T1::S(T2::Unwrap(target.0, target.1)))) };
    let mut eu = pre.clone();
    eu.push(un);
    eu.extend(post.iter().cloned());
    let mut ei = pre.clone();
    if plain {
        ei.extend(g.0[0].iter().cloned());
    } else {
        ei.push(Ent { occ, val: EV::P(g.clone()) });
    }
    ei.extend(post.iter().cloned());
    if !plain && paren_type(&g).is_some() && is_map {
        return Out::Discard;
    }
    if outer {
        c.label("inside a generic");
        rules_u.insert(0, rule_t("top", ty(T1::S(T2::Name("outer-g".into(), vec![name("int")])))));
        rules_u.push(Rule { name: "outer-g".into(), params: vec![op], val: RV::T(ty(mk(grp(eu)))) });
    } else {
        rules_u.insert(0, rule_t("top", ty(mk(grp(eu)))));
    }
    rules.insert(0, rule_t("top", ty(mk(grp(ei)))));
    let (a, b) = (Schema(rules_u), Schema(rules));
    let (v, _) = gen::value_for(s, &b, cfg.json);
    let (ta, tb) = (a.text(), b.text());
    let p = Path::pick(s, &v);
    if open(&a, "top", &v) || open(&b, "top", &v) {
        return Out::Discard;
    }
    c.execs += 2;
    let (ya, yb) = (api::run(p, "top", &ta, &v), api::run(p, "top", &tb, &v));
    if ya != yb {
        return Out::Fail(format!("{}\nverdict {:?}; spliced in place:\n{}verdict {:?}", show(&ta, "top", &v), ya, tb, yb));
    }
    if let Err(Out::Fail(m)) = diff(c, s, &a, &v) {
        return Out::Fail(m);
    }
    c.label(if ya == Y::Ok { "spliced, match" } else { "spliced, no match" });
    if matches!(ya, Y::Ok | Y::No) {
        c.nontrivial(&(ta.as_str(), v.show()));
        c.sample(|| format!("{} -> {:?}", show(&ta, "top", &v), ya));
    }
    Out::Pass
}

// -------------------------------------------------------------------- C10

pub const C10: Prop = Prop {
    id: "C10",
    rule: "a group of 2-40 members (without keys or with words, literals or types for keys; literals, prelude types, ranges, arrays, maps, names of further groups; generic parameters handed on by up to three further names) \
used as &name; relation: same verdict as the choice of the members' values, in random surroundings, and equal to the \
reference model; values equal or near a member, including members' keys and positions. Non-trivial: every decided case; \
distinct by schema and value.",
    fixed: 0,
    quick: 390_000,
    thorough: 3_000_000,
    budget: 20_000_000,
    f: c10,
};

fn c10(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::choices(s, c, true);
    }
    let json = s.pct(30);
    let cfg = Cfg { json, rules: 3, depth: 1, ..Cfg::default() };
    if s.pct(12) {
        return c10_map(s, c);
    }
    let n = if s.pct(3) { 40 + s.us(80) } else { 1 + s.size(39) };
    let mut g = gen_for(&cfg);
    let mut types: Vec<Type> = vec![];
    let mut members: Vec<Ent> = vec![];
    let mut rules: Vec<Rule> = vec![];
    let cx = gen::top_cx();
    let mut tmap: Vec<Option<usize>> = vec![];
    for i in 0..n {
        let t = match s.weighted(&[40, 30, 10, 10]) {
            0 => ty(T1::S(T2::Lit(Lit::Int(s.range(-3, 50) as i128)))),
            1 => ty(T1::S(T2::Lit(g.small_lit(s)))),
            2 => ty(g.t1(s, &cx, 1)),
            _ => ty(name(*s.pick(&["null", "true", "bool", "nint"]))),
        };
        tmap.push(Some(types.len()));
        if i > 0 && s.pct(8) && rules.len() < 3 {
            tmap[i] = None;
            // a named group among the members stands for its members
            let gn = format!("inner-{}", i);
            let t2 = ty(T1::S(T2::Lit(g.small_lit(s))));
            rules.push(rule_g(&gn, pent(grp(vec![kent(Key::Bare("i1".into()), t.clone()), kent(Key::Bare("i2".into()), t2.clone())]))));
            types.push(t);
            types.push(t2);
            members.push(ent1(name(&gn)));
            continue;
        }
        let keyed = i == 0 || s.bool();
        // (keys are only names: they may be the same)
        let key = if s.pct(20) { "a0".to_string() } else { format!("{}{}", s.pick(&["a", "b", "k"]), i) };
        let key = match s.us(8) {
            // (in the first place a group is told by its key)
            0 | 1 => Key::Val(if s.bool() { Lit::Int(s.range(-3, 50) as i128) } else { g.small_lit(s) }),
            2 => Key::Ty(name(s.pick(&["int", "tstr", "any"])), s.bool()),
            _ => Key::Bare(key),
        };
        members.push(if keyed { kent(key, t.clone()) } else { ent(t.clone()) });
        types.push(t);
    }
    let inline = s.pct(25);
    let mut target = "grp-main".to_string();
    let mut amp_args = vec![];
    let mut gparams = vec![];
    if !inline && s.pct(40) {
        // parameters in the place of members' types, handed on by names
        let at: Vec<usize> = (0..members.len()).filter(|i| matches!(members[*i].val, EV::M(_, ref t) if tmap[*i].is_some_and(|k| types[k] == *t))).collect();
        let m = (1 + s.us(3)).min(at.len());
        let at: Vec<usize> = s.perm(at.len()).into_iter().take(m).map(|i| at[i]).collect();
        const PN: &[&str] = &["t", "u", "grp-arg", "k", "T"];
        let fresh = |s: &mut Src| -> Vec<String> {
            let p = s.perm(PN.len());
            (0..m).map(|i| PN[p[i]].to_string()).collect()
        };
        // from the outside in
        let mut eff: Vec<Type> = at.iter().map(|i| types[tmap[*i].unwrap()].clone()).collect();
        amp_args = eff.iter().map(as_t1).collect();
        let levels = s.us(4);
        let mut names: Vec<String> = (0..levels).map(|i| format!("galias-{}", i)).collect();
        names.push("grp-main".into());
        target = names[0].clone();
        // order[k]: which member the k-th argument is for
        let mut order: Vec<usize> = (0..m).collect();
        for l in 0..levels {
            let ps = fresh(s);
            let perm = s.perm(m);
            let mut args = vec![];
            let mut norder = vec![];
            for j in perm {
                let who = order[j];
                let p = name(&ps[j]);
                args.push(if s.pct(35) {
                    eff[who] = ty(arr(vec![ent(eff[who].clone())]));
                    arr(vec![ent1(p)])
                } else {
                    p
                });
                norder.push(who);
            }
            order = norder;
            let mut r = rule_t(&names[l], ty(T1::S(T2::Name(names[l + 1].clone(), args))));
            r.params = ps;
            rules.push(r);
        }
        gparams = fresh(s);
        for (j, who) in order.iter().enumerate() {
            let i = at[*who];
            types[tmap[i].unwrap()] = eff[*who].clone();
            // (with no key at its start it would be a type in parentheses)
            // (and the bare name of a type cannot stand without a key)
            if i > 0 && (s.pct(25) || matches!(members[i].val, EV::M(None, _))) {
                // through a further group
                let n = format!("inn-{}", j);
                let mut r = rule_g(&n, pent(grp(vec![kent(Key::Bare("v".into()), tn("w"))])));
                r.params = vec!["w".into()];
                rules.push(r);
                members[i] = ent1(T1::S(T2::Name(n, vec![name(&gparams[j])])));
            } else if let EV::M(_, t) = &mut members[i].val {
                *t = tn(&gparams[j]);
            }
        }
        c.label("generic group");
    }
    let choice = Type(types.iter().map(as_t1).collect());
    // a value
    let v = {
        let sch = Schema(vec![rule_t("top", choice.clone())]);
        match s.us(5) {
            0 => {
                // a key of a member is not a value
                match &members[s.us(members.len())].val {
                    EV::M(Some(Key::Bare(k)), _) => V::Text(k.clone()),
                    EV::M(Some(Key::Val(Lit::Int(i))), _) => V::Int(*i),
                    EV::M(Some(Key::Val(Lit::Text(k))), _) => V::Text(k.clone()),
                    EV::M(Some(Key::Val(Lit::Float(f))), _) => V::Float(*f),
                    EV::M(Some(Key::Val(Lit::Bytes(b))), _) if !json => V::Bytes(b.clone()),
                    _ => V::Int(s.us(n) as i128),
                }
            }
            _ => gen::value_for(s, &sch, json).0,
        }
    };
    let inline = inline.then(|| grp(members.clone()));
    if inline.is_none() {
        let mut r = rule_g("grp-main", pent(grp(members)));
        r.params = gparams;
        rules.push(r);
        if amp_args.is_empty() {
            for i in 0..s.us(3) {
                let nm = format!("galias-{}", i);
                rules.push(rule_t(&nm, tn(&target)));
                target = nm;
            }
        }
    }
    let amp = match inline {
        Some(g) => T2::AmpInline(g),
        None => T2::Amp(target, amp_args),
    };
    let mut wa = gen::Wrap::new(T1::S(amp), v.clone());
    wa.rules = rules;
    let mut wb = gen::Wrap::new(T1::S(T2::Paren(choice)), v);
    // the same surroundings for both
    let k = s.us(3);
    let fork = s.byte();
    let mut seedbytes = vec![];
    for _ in 0..24 {
        seedbytes.push(s.byte().wrapping_add(fork));
    }
    let (mut s1, mut s2) = (Src::new(&seedbytes), Src::new(&seedbytes));
    for _ in 0..k {
        wa.add(&mut s1, json);
        wb.add(&mut s2, json);
    }
    let (a, b) = (wa.schema("top"), wb.schema("top"));
    let (ta, tb) = (a.text(), b.text());
    let p = Path::pick(s, &wa.v);
    if heavy(&a, "top", &wa.v) || heavy(&b, "top", &wb.v) {
        return Out::Discard;
    }
    c.execs += 2;
    let (ya, yb) = (api::run(p, "top", &ta, &wa.v), api::run(p, "top", &tb, &wb.v));
    if ya != yb {
        return Out::Fail(format!("{}\nverdict {:?}; as a choice:\n{}verdict {:?}", show(&ta, "top", &wa.v), ya, tb, yb));
    }
    match diff(c, s, &a, &wa.v) {
        Err(Out::Fail(m)) => return Out::Fail(m),
        Err(_) => c.label("model open"),
        Ok(d) => c.label(verdict_label(d.m)),
    }
    if matches!(ya, Y::Ok | Y::No) {
        c.nontrivial(&(ta.as_str(), wa.v.show()));
        c.sample(|| format!("{} -> {:?}", show(&ta, "top", &wa.v), ya));
    }
    Out::Pass
}

/// In a map, &group over members that are groups means one of these groups.
fn c10_map(s: &mut Src, c: &mut Case) -> Out {
    let json = s.pct(30);
    let cfg = Cfg { json, rules: 2, depth: 1, ..Cfg::default() };
    let mut g = gen_for(&cfg);
    let cx = gen::top_cx();
    let n = 1 + s.us(4);
    let mut rules = vec![];
    for i in 0..n {
        let es: Vec<Ent> = (0..1 + s.us(3))
            .map(|_| {
                let t = if s.bool() { ty(T1::S(T2::Lit(g.small_lit(s)))) } else { ty(g.t1(s, &cx, 1)) };
                let k = *s.pick(&["a", "b", "c", "d"]);
                let e = kent(if s.bool() { Key::Bare(k.into()) } else { Key::Ty(lit_t(k), s.bool()) }, t);
                if s.pct(20) {
                    oent(Occ::Opt, e)
                } else {
                    e
                }
            })
            .collect();
        rules.push(rule_g(&format!("g{}", i), pent(grp(es))));
    }
    let members: Vec<Ent> = (0..n).map(|i| kent(Key::Bare(format!("{}{}", s.pick(&["a", "k"]), i)), tn(&format!("g{}", i)))).collect();
    let choice = Group((0..n).map(|i| vec![ent1(name(&format!("g{}", i)))]).collect());
    rules.push(rule_g("all", pent(grp(members))));
    rules.push(rule_g("same", pent(choice)));
    let mut others: Vec<Ent> = (0..s.us(3))
        .map(|_| {
            let k = *s.pick(&["a", "b", "e"]);
            let e = kent(Key::Bare(k.into()), tn(s.pick(&["int", "tstr", "any"])));
            if s.bool() {
                oent(Occ::Opt, e)
            } else {
                e
            }
        })
        .collect();
    if s.bool() {
        others.push(oent(Occ::Star, kent(Key::Ty(name("tstr"), false), tn(s.pick(&["int", "any"])))));
    }
    let at = s.us(others.len() + 1);
    let occ = *s.pick(&[None, None, Some(Occ::Opt), Some(Occ::Star)]);
    let mk = |t: T1| {
        let mut es = others.clone();
        let e = ent1(t);
        es.insert(
            at,
            match occ {
                Some(o) => oent(o, e),
                None => e,
            },
        );
        let mut r = vec![rule_t("top", ty(map(es)))];
        r.extend(rules.clone());
        Schema(r)
    };
    let a = mk(T1::S(T2::Amp("all".into(), vec![])));
    let b = mk(name("same"));
    let (v, _) = gen::value_for(s, &b, json);
    let d = match diff(c, s, &b, &v) {
        Err(o) => return o,
        Ok(d) => d,
    };
    let p = Path::pick(s, &v);
    let ta = a.text();
    if heavy(&a, "top", &v) {
        return Out::Discard;
    }
    c.execs += 2;
    let (ya, yb) = (api::run(p, "top", &ta, &v), api::run(p, "top", &d.text, &v));
    if ya != yb {
        return Out::Fail(format!("{}\nverdict {:?}; as a group choice:\n{}verdict {:?}", show(&ta, "top", &v), ya, d.text, yb));
    }
    c.label("groups in a map");
    c.label(verdict_label(d.m));
    c.nontrivial(&(ta.as_str(), v.show()));
    c.sample(|| format!("{} -> {:?}", show(&ta, "top", &v), ya));
    Out::Pass
}

pub fn gen_for(cfg: &Cfg) -> gen::G<'_> {
    gen::G::bare(cfg)
}

// -------------------------------------------------------------------- C27

pub const C27: Prop = Prop {
    id: "C27",
    rule: "2-60 random type alternatives (types, or sets of numbers with gaps and repetitions, or touching ranges) over a value; the verdict of A / B / ... must be a match exactly when some \
alternative alone matches, for any order, any grouping in parentheses, duplicates, alternatives behind names, and the \
choice placed inside random surroundings. Non-trivial: no alternative is a schema error; distinct by schema and value.",
    fixed: 0,
    quick: 96_000,
    thorough: 1_500_000,
    budget: 20_000_000,
    f: c27,
};

fn c27(s: &mut Src, c: &mut Case) -> Out {
    if s.pct(3) {
        return super::large::choices(s, c, false);
    }
    let json = s.pct(30);
    let cfg = Cfg { json, rules: 4, depth: 2, cut: 25, recurse: 0, ..Cfg::default() };
    let sch = gen::schema(s, &cfg);
    let n = 2 + if s.pct(85) { s.us(4) } else { s.size(58) };
    let mut g = gen_for(&cfg);
    let cx = gen::top_cx();
    // alternatives: fresh types, or the schema's own rules
    let mut alts: Vec<T1> = vec![];
    // a set of small integers (texts, floats) with gaps and repetitions
    let set = s.pct(18).then(|| (s.us(6), s.range(-6, 20)));
    let mut edge = 0i64;
    for _ in 0..n {
        if let Some((k, base)) = set {
            let i = base + s.us(n + 2) as i64;
            if k >= 4 {
                // ranges that touch, overlap, or leave a gap
                let a = base + edge;
                let b = a + s.us(4) as i64;
                edge += b - a + *s.pick(&[0, 0, 0, 1, 2, -1]);
                let l = |i: i64| if k == 4 { T2::Lit(Lit::Int(i as i128)) } else { T2::Lit(Lit::Float(i as f64)) };
                alts.push(T1::Range(l(a), s.bool(), l(b)));
                continue;
            }
            alts.push(match k {
                0 => lit_t(&i.to_string()),
                1 => T1::S(T2::Lit(Lit::Float(i as f64 + 0.5))),
                2 if s.pct(20) => T1::Range(as_t2(&ty(lit_i(i as i128))), s.bool(), as_t2(&ty(lit_i(i as i128 + s.us(3) as i128)))),
                _ => lit_i(i as i128),
            });
            continue;
        }
        let r = &sch.0[s.us(sch.0.len())];
        let is_t = matches!(r.val, RV::T(_)) && r.params.is_empty();
        alts.push(if is_t && s.pct(40) { name(&r.name) } else { g.t1(s, &cx, 2) });
    }
    let mut base = sch.0.clone();
    base.insert(0, rule_t("top", Type(alts.clone())));
    let v = match set {
        Some((k, base)) if s.pct(85) => {
            let i = base - 1 + s.us(if k >= 4 { edge.max(0) as usize + 4 } else { n + 4 }) as i64;
            match k {
                5 if s.bool() => V::Float(i as f64 + 0.5),
                5 => V::Float(i as f64),
                0 => V::Text(i.to_string()),
                1 => V::Float(i as f64 + 0.5),
                _ => V::Int(i as i128),
            }
        }
        _ => {
            let b = Schema(base.clone());
            gen::value_for(s, &b, json).0
        }
    };
    let p = Path::pick(s, &v);
    if heavy(&Schema(base.clone()), "top", &v) {
        return Out::Discard;
    }
    let run = |t: Type| {
        let mut r = sch.0.clone();
        r.insert(0, rule_t("top", t));
        let text = Schema(r).text();
        (api::run(p, "top", &text, &v), text)
    };
    let mut any = false;
    let mut first = None;
    for (i, a) in alts.iter().enumerate() {
        c.execs += 1;
        match run(ty(a.clone())) {
            (Y::Ok, _) => {
                any = true;
                first.get_or_insert(i);
            }
            (Y::No, _) => {}
            (Y::P(m), t) => return Out::Fail(format!("{}\npanic {}", show(&t, "top", &v), m)),
            _ => return Out::Discard,
        }
    }
    let want = if any { Y::Ok } else { Y::No };
    let mut tries: Vec<Type> = vec![Type(alts.clone())];
    let pm = s.perm(n);
    tries.push(Type(pm.iter().map(|i| alts[*i].clone()).collect()));
    let mut rev = alts.clone();
    rev.reverse();
    rev.push(alts[s.us(n)].clone());
    tries.push(Type(rev));
    // grouping
    let k = 1 + s.us(n - 1);
    tries.push(Type(vec![
        T1::S(T2::Paren(Type(alts[..k].to_vec()))),
        T1::S(T2::Paren(Type(vec![T1::S(T2::Paren(Type(alts[k..].to_vec())))]))),
    ]));
    for t in tries {
        c.execs += 1;
        let (y, text) = run(t);
        if y != want {
            return Out::Fail(format!("{}\ngot {:?}; alone, the alternatives give {:?}", show(&text, "top", &v), y, want));
        }
    }
    // behind names and in surroundings
    let mut r = sch.0.clone();
    r.push(rule_t("left-part", Type(alts[..k].to_vec())));
    r.push(rule_t("right-part", Type(alts[k..].to_vec())));
    let mut w = gen::Wrap::new(T1::S(T2::Paren(Type(vec![name("left-part"), name("right-part")]))), v.clone());
    w.rules = r;
    for _ in 0..s.us(3) {
        w.add(s, json);
    }
    let text = w.schema("top").text();
    let p = Path::pick(s, &w.v);
    if heavy(&w.schema("top"), "top", &w.v) {
        return Out::Discard;
    }
    c.execs += 1;
    let y = api::run(p, "top", &text, &w.v);
    if y != want {
        return Out::Fail(format!("{}\ngot {:?}; alone, the alternatives give {:?}", show(&text, "top", &w.v), y, want));
    }
    c.label(if any { "match" } else { "mismatch" });
    if first.is_some_and(|i| i > 0) {
        c.label("a later alternative matched");
    }
    c.nontrivial(&(text.as_str(), w.v.show()));
    c.sample(|| format!("{} -> {:?}", show(&text, "top", &w.v), want));
    Out::Pass
}
