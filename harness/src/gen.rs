//! Generators: random schemas, values sampled from a schema, mutations of
//! values, and contexts that wrap a type and a value.

use crate::model::*;
use crate::rx::{self, Rx};
use crate::sch::*;
use crate::src::Src;
use crate::val::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub arr: u32,
    pub map: u32,
    pub rules: usize,
    pub depth: usize,
    pub generics: bool,
    pub unwrap: bool,
    pub amp: bool,
    pub ctl: u32,
    pub range: u32,
    pub cbor: bool,
    pub gchoice: u32,
    pub cut: u32,
    pub occ: u32,
    pub recurse: u32,
    pub json: bool,
    pub widen: u32,
    /// what the first rule is: 0 anything, 1 array, 2 map
    pub main: u8,
    /// percentage of references that are wrong
    pub fatal: u32,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            arr: 12,
            map: 12,
            rules: 5,
            depth: 3,
            generics: true,
            unwrap: true,
            amp: true,
            ctl: 6,
            range: 6,
            cbor: true,
            gchoice: 20,
            cut: 35,
            occ: 40,
            recurse: 4,
            json: false,
            widen: 25,
            main: 0,
            fatal: 0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    T,
    AG,
    MG,
    AT,
    MT,
    Amp,
    Const,
}

pub struct G<'c> {
    pub cfg: &'c Cfg,
    pub kinds: Vec<Kind>,
    pub names: Vec<String>,
    pub params: Vec<Vec<String>>,
    nodes: usize,
    max_nodes: usize,
}

#[derive(Clone)]
pub struct Cx {
    idx: usize,
    /// inside a container written in the current rule
    guarded: bool,
}

pub const NAMES: &[&str] = &[
    "a", "b", "c", "foo", "bar", "my-type", "x.y", "t_2", "@at", "int8", "integers", "textual", "nullx", "Type", "INT",
    "any-thing", "uint-16", "b-.c", "a$b", "true-ish", "float1", "bstrs", "zz9", "_u", "T", "K.V", "a-b-c", "falsey",
    "tstr1", "nilx", "A", "B", "Null", "TRUE", "Int", "Any", "p1", "e5", "string", "boolean",
];
pub const PNAMES: &[&str] = &["T", "K", "t", "a", "b", "my-type", "p.q", "foo", "V", "intx"];

const KEYS: &[&str] = &["a", "b", "c", "d", "e"];
const BARES: &[&str] = &["a", "b", "c", "d", "e", "a", "b", "c", "int", "a-b", "x.y", "@k", "true"];

pub fn top_cx() -> Cx {
    Cx { idx: 0, guarded: false }
}

impl<'c> G<'c> {
    /// A generator without other rules to refer to.
    pub fn bare(cfg: &'c Cfg) -> G<'c> {
        G { cfg, kinds: vec![Kind::T], names: vec!["top".into()], params: vec![vec![]], nodes: 0, max_nodes: 400 }
    }
    fn pick_rule(&self, s: &mut Src, cx: &Cx, kinds: &[Kind], back: bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.kinds.len())
            .filter(|j| (back || *j > cx.idx) && kinds.contains(&self.kinds[*j]))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(v[s.us(v.len())])
        }
    }

    fn refer(&mut self, s: &mut Src, cx: &Cx, j: usize, d: usize) -> (String, Vec<T1>) {
        if self.cfg.fatal > 0 && s.pct(self.cfg.fatal) {
            // a mistake in the schema
            return match s.us(2) {
                0 => ("no-such-rule".into(), vec![]),
                _ => (self.names[j].clone(), vec![name("int"); self.params[j].len() + 1]),
            };
        }
        let n = self.params[j].len();
        let args = (0..n).map(|_| self.t1(s, cx, d.saturating_sub(1))).collect();
        (self.names[j].clone(), args)
    }

    pub fn small_lit(&self, s: &mut Src) -> Lit {
        match s.weighted(&[45, 40, 8, if self.cfg.json { 0 } else { 7 }]) {
            0 => Lit::Int(s.range(-2, 6) as i128),
            1 => Lit::Text((*s.pick(&["a", "b", "c", "d", "x", ""])).into()),
            2 => Lit::Float(*s.pick(&[0.0, 1.0, 1.5, 2.0])),
            _ => Lit::Bytes(s.pick(&[&b""[..], b"a", b"\x01"]).to_vec()),
        }
    }

    fn prim(&self, s: &mut Src) -> &'static str {
        const COMMON: &[&str] = &["int", "tstr", "uint", "bool", "any", "float", "nint", "null", "true", "false"];
        let p = match s.weighted(&[80, 20]) {
            0 => *s.pick(COMMON),
            _ => *s.pick(PRELUDE),
        };
        if self.cfg.json && prelude(p, &V::Bytes(vec![])) == Some(R::Ok) {
            return "tstr";
        }
        p
    }

    pub fn ty(&mut self, s: &mut Src, cx: &Cx, d: usize) -> Type {
        let n = 1 + s.weighted(&[65, 25, 8, 2]);
        Type((0..n).map(|_| self.t1(s, cx, d)).collect())
    }

    fn scalar(&mut self, s: &mut Src, cx: &Cx, d: usize) -> T1 {
        let c = self.cfg;
        match s.weighted(&[45, 35, c.range, c.ctl]) {
            0 => name(self.prim(s)),
            1 => T1::S(T2::Lit(self.small_lit(s))),
            2 => {
                let inc = !s.pct(40);
                if s.pct(80) {
                    let a = s.range(-3, 6) as i128;
                    let b = a + s.range(-1, 6) as i128;
                    T1::Range(T2::Lit(Lit::Int(a)), inc, T2::Lit(Lit::Int(b)))
                } else {
                    let a = s.range(-4, 8) as f64 / 2.0;
                    let b = a + s.range(0, 8) as f64 / 2.0;
                    T1::Range(T2::Lit(Lit::Float(a)), inc, T2::Lit(Lit::Float(b)))
                }
            }
            _ => match s.us(if c.cbor && !c.json && d > 0 { 5 } else { 4 }) {
                0 => T1::Ctl(
                    T2::Name((*s.pick(&["tstr", "uint", if c.json { "text" } else { "bstr" }])).into(), vec![]),
                    "size".into(),
                    if s.bool() {
                        T2::Lit(Lit::Int(s.range(0, 4) as i128))
                    } else {
                        let a = s.range(0, 3) as i128;
                        let b = a + s.range(0, 3) as i128;
                        T2::Paren(ty(T1::Range(T2::Lit(Lit::Int(a)), !s.pct(40), T2::Lit(Lit::Int(b)))))
                    },
                ),
                1 | 2 => T1::Ctl(
                    T2::Name((*s.pick(&["int", "uint", "nint"])).into(), vec![]),
                    (*s.pick(&["lt", "le", "gt", "ge"])).into(),
                    T2::Lit(Lit::Int(s.range(-3, 6) as i128)),
                ),
                3 => T1::Ctl(
                    T2::Name("tstr".into(), vec![]),
                    "regexp".into(),
                    T2::Lit(Lit::Text((*s.pick(&["^a", "b$", "^[a-c]+$", "a|d", "^.$", "^$", "x"])).into())),
                ),
                _ => {
                    let t = self.ty(s, cx, d - 1);
                    T1::Ctl(T2::Name("bstr".into(), vec![]), "cbor".into(), as_t2(&t))
                }
            },
        }
    }

    pub fn t1(&mut self, s: &mut Src, cx: &Cx, d: usize) -> T1 {
        self.nodes += 1;
        if d == 0 || self.nodes > self.max_nodes {
            return self.scalar(s, cx, 0);
        }
        let c = self.cfg;
        let np = self.params[cx.idx].len() as u32;
        match s.weighted(&[40, 20, c.arr, c.map, 5, if c.amp { 3 } else { 0 }, np * 12, if cx.guarded { c.recurse } else { 0 }]) {
            0 => self.scalar(s, cx, d),
            1 => match self.pick_rule(s, cx, &[Kind::T, Kind::AT, Kind::MT, Kind::Const], false) {
                Some(j) => {
                    let (n, a) = self.refer(s, cx, j, d);
                    T1::S(T2::Name(n, a))
                }
                None => self.scalar(s, cx, d),
            },
            2 => T1::S(T2::Arr(self.agroup(s, cx, d - 1))),
            3 => T1::S(T2::Map(self.mgroup(s, cx, d - 1))),
            4 => {
                let t = self.ty(s, cx, d - 1);
                T1::S(T2::Paren(t))
            }
            5 => match self.pick_rule(s, cx, &[Kind::Amp], false) {
                Some(j) => {
                    let (n, a) = self.refer(s, cx, j, d);
                    T1::S(T2::Amp(n, a))
                }
                None => self.scalar(s, cx, d),
            },
            6 => {
                let p = &self.params[cx.idx];
                let n = p[s.us(p.len())].clone();
                name(&n)
            }
            _ => match self.pick_rule(s, cx, &[Kind::T, Kind::AT, Kind::MT], true) {
                Some(j) => {
                    // plain arguments only, so that recursion does not grow them
                    let n = self.params[j].len();
                    let args = (0..n).map(|_| name(self.prim(s))).collect();
                    T1::S(T2::Name(self.names[j].clone(), args))
                }
                None => self.scalar(s, cx, d),
            },
        }
    }

    fn occ(&self, s: &mut Src, pct: u32) -> Option<Occ> {
        if !s.pct(pct) {
            return None;
        }
        Some(match s.weighted(&[30, 30, 15, 25]) {
            0 => Occ::Opt,
            1 => Occ::Star,
            2 => Occ::Plus,
            _ => {
                let a = s.us(3);
                match s.us(4) {
                    0 => Occ::N(Some(a), Some(a + s.us(3))),
                    1 => Occ::N(Some(a), None),
                    2 => Occ::N(None, Some(s.us(4))),
                    _ => Occ::N(Some(a), Some(a)),
                }
            }
        })
    }

    pub fn agroup(&mut self, s: &mut Src, cx: &Cx, d: usize) -> Group {
        let cx = Cx { guarded: true, ..cx.clone() };
        let n = if s.pct(self.cfg.gchoice) { 2 + s.us(2) } else { 1 };
        Group(
            (0..n)
                .map(|_| {
                    let k = s.weighted(&[6, 30, 30, 20, 10, 4]);
                    (0..k).map(|_| self.aent(s, &cx, d)).collect()
                })
                .collect(),
        )
    }

    fn aent(&mut self, s: &mut Src, cx: &Cx, d: usize) -> Ent {
        let c = self.cfg;
        let val = match s.weighted(&[60, 10, 12, if c.unwrap { 8 } else { 0 }, 10]) {
            1 => {
                let k = s.pick(BARES).to_string();
                EV::M(Some(Key::Bare(k)), self.ty(s, cx, d))
            }
            2 => match self.pick_rule(s, cx, &[Kind::AG], false) {
                Some(j) => {
                    let (n, a) = self.refer(s, cx, j, d);
                    EV::M(None, ty(T1::S(T2::Name(n, a))))
                }
                None => EV::M(None, self.ty(s, cx, d)),
            },
            3 => match self.pick_rule(s, cx, &[Kind::AT], false) {
                Some(j) => {
                    let (n, a) = self.refer(s, cx, j, d);
                    EV::M(None, ty(T1::S(T2::Unwrap(n, a))))
                }
                None => EV::M(None, self.ty(s, cx, d)),
            },
            4 if d > 0 => EV::P(self.agroup(s, cx, d - 1)),
            _ => EV::M(None, self.ty(s, cx, d)),
        };
        Ent { occ: self.occ(s, c.occ), val }
    }

    pub fn mgroup(&mut self, s: &mut Src, cx: &Cx, d: usize) -> Group {
        let cx = Cx { guarded: true, ..cx.clone() };
        let n = if s.pct(self.cfg.gchoice) { 2 + s.us(2) } else { 1 };
        Group(
            (0..n)
                .map(|_| {
                    let k = s.weighted(&[5, 25, 30, 25, 10, 5]);
                    (0..k).map(|_| self.ment(s, &cx, d)).collect()
                })
                .collect(),
        )
    }

    fn key(&mut self, s: &mut Src, cx: &Cx) -> (Key, bool) {
        let c = self.cfg;
        if s.pct(c.widen) {
            // a key type that several entries may match
            let t = match s.us(7) {
                0 | 1 => name("tstr"),
                2 => name(*s.pick(&["int", "uint", "nint"])),
                3 => name("any"),
                4 => T1::Range(T2::Lit(Lit::Int(0)), s.bool(), T2::Lit(Lit::Int(s.range(1, 4) as i128))),
                5 => T1::S(T2::Paren(Type((0..2 + s.us(2)).map(|_| T1::S(T2::Lit(self.small_lit(s)))).collect()))),
                _ => match self.pick_rule(s, cx, &[Kind::T, Kind::Const], false) {
                    Some(j) => {
                        let (n, a) = self.refer(s, cx, j, 1);
                        T1::S(T2::Name(n, a))
                    }
                    None => name("tstr"),
                },
            };
            (Key::Ty(t, s.pct(c.cut)), true)
        } else if s.pct(c.cut.max(30)) {
            if s.pct(75) {
                (Key::Bare(s.pick(BARES).to_string()), false)
            } else {
                (Key::Val(self.small_lit(s)), false)
            }
        } else {
            let l = if s.pct(75) { Lit::Text((*s.pick(KEYS)).into()) } else { self.small_lit(s) };
            (Key::Ty(T1::S(T2::Lit(l)), s.pct(c.cut)), false)
        }
    }

    fn ment(&mut self, s: &mut Src, cx: &Cx, d: usize) -> Ent {
        let c = self.cfg;
        match s.weighted(&[74, 10, if c.unwrap { 7 } else { 0 }, 9, 4]) {
            4 => {
                // alternatives that each are members
                let n = 2 + s.us(2);
                let inline = s.pct(50);
                let mut alts = vec![];
                let mut es = vec![];
                for _ in 0..n {
                    let k = [Kind::MG, if c.unwrap { Kind::MT } else { Kind::MG }];
                    if inline && s.pct(30) {
                        let k = if s.pct(30) { Key::Ty(ty(T1::S(T2::Name("tstr".into(), vec![]))).0.remove(0), s.bool()) } else { Key::Bare(s.pick(BARES).to_string()) };
                        let e = kent(k, self.ty(s, cx, d.saturating_sub(1)));
                        es.push(Ent { occ: self.occ(s, c.occ), ..e });
                        continue;
                    }
                    let un = s.us(2);
                    if let Some(j) = self.pick_rule(s, cx, &k[un..un + 1], false) {
                        let (n, a) = self.refer(s, cx, j, d);
                        let x = T1::S(if k[un] == Kind::MT { T2::Unwrap(n, a) } else { T2::Name(n, a) });
                        es.push(ent1(x.clone()));
                        alts.push(x);
                    }
                }
                if inline && c.amp && !es.is_empty() {
                    return Ent { occ: self.occ(s, c.occ), val: EV::M(None, ty(T1::S(T2::AmpInline(grp(es))))) };
                }
                if alts.len() > 1 {
                    let t = if s.bool() { Type(alts) } else { ty(T1::S(T2::Paren(Type(alts)))) };
                    return Ent { occ: self.occ(s, c.occ), val: EV::M(None, t) };
                }
            }
            1 => {
                if let Some(j) = self.pick_rule(s, cx, &[Kind::MG], false) {
                    let (n, a) = self.refer(s, cx, j, d);
                    return Ent { occ: self.occ(s, c.occ), val: EV::M(None, ty(T1::S(T2::Name(n, a)))) };
                }
            }
            2 => {
                if let Some(j) = self.pick_rule(s, cx, &[Kind::MT], false) {
                    let (n, a) = self.refer(s, cx, j, d);
                    return Ent { occ: self.occ(s, c.occ), val: EV::M(None, ty(T1::S(T2::Unwrap(n, a)))) };
                }
            }
            3 if d > 0 => {
                let g = self.mgroup(s, cx, d - 1);
                if paren_type(&g).is_none() {
                    return Ent { occ: self.occ(s, c.occ), val: EV::P(g) };
                }
            }
            _ => {}
        }
        let (k, wide) = self.key(s, cx);
        let t = self.ty(s, cx, d);
        let occ = if wide { self.occ(s, 80) } else { self.occ(s, c.occ) };
        Ent { occ, val: EV::M(Some(k), t) }
    }

    fn amp_group(&mut self, s: &mut Src, cx: &Cx) -> Group {
        let n = 2 + s.us(3);
        Group(vec![(0..n)
            .map(|i| {
                let t = if s.pct(70) { ty(T1::S(T2::Lit(self.small_lit(s)))) } else { ty(self.scalar(s, cx, 0)) };
                if i > 0 && s.pct(15) {
                    if let Some(j) = self.pick_rule(s, cx, &[Kind::Amp], false) {
                        let (n, a) = self.refer(s, cx, j, 1);
                        return ent1(T1::S(T2::Name(n, a)));
                    }
                }
                if i > 0 && s.bool() {
                    ent(t)
                } else {
                    kent(Key::Bare(s.pick(BARES).to_string()), t)
                }
            })
            .collect()])
    }
}

/// A random schema; the first rule (never generic) is the one to check.
pub fn schema(s: &mut Src, cfg: &Cfg) -> Schema {
    let n = 1 + s.us(cfg.rules.max(1));
    let mut names: Vec<String> = vec![];
    let mut kinds = vec![];
    let mut params: Vec<Vec<String>> = vec![];
    let off = s.us(NAMES.len());
    for i in 0..n {
        let mut nm = NAMES[(off + i * 7 + s.us(3) * 11) % NAMES.len()].to_string();
        while names.contains(&nm) {
            nm.push('1');
        }
        names.push(nm);
        kinds.push(if i == 0 {
            match cfg.main {
                1 => Kind::AT,
                2 => Kind::MT,
                _ => Kind::T,
            }
        } else {
            let aw = if cfg.arr > 0 { 18 } else { 0 };
            let mw = if cfg.map > 0 { 18 } else { 0 };
            [Kind::T, Kind::AG, Kind::MG, Kind::AT, Kind::MT, Kind::Amp, Kind::Const]
                [s.weighted(&[25, aw, mw, aw, mw, if cfg.amp { 8 } else { 0 }, 6])]
        });
        let np = if i > 0 && cfg.generics && kinds[i] != Kind::Const { s.weighted(&[70, 20, 10]) } else { 0 };
        let mut ps: Vec<String> = vec![];
        for _ in 0..np {
            let mut p = s.pick(PNAMES).to_string();
            while ps.contains(&p) {
                p.push('2');
            }
            ps.push(p);
        }
        params.push(ps);
    }
    let max_nodes = *s.pick(&[8, 20, 45, 120]);
    let mut g = G { cfg, kinds, names, params, nodes: 0, max_nodes };
    let mut rules = vec![];
    for i in 0..n {
        let cx = Cx { idx: i, guarded: false };
        let d = cfg.depth;
        g.nodes = 0;
        let val = match g.kinds[i] {
            Kind::T => RV::T(if i == 0 && (cfg.arr + cfg.map > 0) && s.pct(75) {
                let t = if s.below((cfg.arr + cfg.map) as u64) < cfg.arr as u64 {
                    T1::S(T2::Arr(g.agroup(s, &cx, d)))
                } else {
                    T1::S(T2::Map(g.mgroup(s, &cx, d)))
                };
                ty(t)
            } else {
                g.ty(s, &cx, d)
            }),
            Kind::Const => RV::T(ty(T1::S(T2::Lit(g.small_lit(s))))),
            Kind::AT => {
                if i > 0 && s.pct(12) {
                    if let Some(j) = g.pick_rule(s, &cx, &[Kind::AT], false) {
                        let (n, a) = g.refer(s, &cx, j, d);
                        rules.push(Rule {
                            name: g.names[i].clone(),
                            params: g.params[i].clone(),
                            val: RV::T(ty(T1::S(T2::Name(n, a)))),
                        });
                        continue;
                    }
                }
                RV::T(ty(T1::S(T2::Arr(g.agroup(s, &cx, d)))))
            }
            Kind::MT => RV::T(ty(T1::S(T2::Map(g.mgroup(s, &cx, d))))),
            Kind::AG => RV::G(pent(g.agroup(s, &cx, d))),
            Kind::MG => {
                // A keyed member makes it a group for certain.
                let mut x = g.mgroup(s, &cx, d);
                if x.0.iter().all(|c| c.is_empty()) || paren_type(&x).is_some() {
                    x.0[0] = vec![kent(Key::Bare("a".into()), g.ty(s, &cx, d.saturating_sub(1)))];
                }
                RV::G(pent(x))
            }
            Kind::Amp => RV::G(pent(g.amp_group(s, &cx))),
        };
        rules.push(Rule { name: g.names[i].clone(), params: g.params[i].clone(), val });
    }
    Schema(rules)
}

// ----------------------------------------------------------------- sampling

/// Draws values that are meant to match (the model decides whether they do).
pub struct Sampler<'m, 'a> {
    pub m: &'m Model<'a>,
    pub json: bool,
    fuel: u32,
}

impl<'m, 'a> Sampler<'m, 'a> {
    pub fn new(m: &'m Model<'a>, json: bool) -> Self {
        Sampler { m, json, fuel: 400 }
    }

    pub fn rule(&mut self, s: &mut Src, r: &'a Rule) -> Option<V> {
        let env = self.m.root_env();
        match &r.val {
            RV::T(t) => self.ty(s, t, &env),
            RV::G(_) => None,
        }
    }

    fn tick(&mut self) -> bool {
        if self.fuel == 0 {
            return false;
        }
        self.fuel -= 1;
        true
    }

    pub fn ty(&mut self, s: &mut Src, t: &'a Type, env: &E<'a>) -> Option<V> {
        let i = s.us(t.0.len());
        self.t1(s, &t.0[i], env)
    }

    fn any(&self, s: &mut Src) -> V {
        if self.json {
            gen_json_value(s, 1)
        } else {
            gen_value(s, 1)
        }
    }

    pub fn prelude(&self, s: &mut Src, n: &str) -> Option<V> {
        Some(match n {
            "nil" | "null" => V::Null,
            "bool" => V::Bool(s.bool()),
            "false" => V::Bool(false),
            "true" => V::Bool(true),
            "int" => V::Int(if s.pct(70) { s.range(-3, 6) as i128 } else { gen_int(s).max(i64::MIN as i128) }),
            "uint" => V::Int(if s.pct(70) { s.range(0, 6) as i128 } else { gen_int(s).abs().min(u64::MAX as i128) }),
            "nint" => V::Int(if s.pct(70) { s.range(-6, -1) as i128 } else { -gen_int(s).abs().clamp(1, 1 << 63) }),
            n if prelude(n, &V::Float(0.5)) == Some(R::Ok) && prelude(n, &V::Null) != Some(R::Ok) => {
                V::Float(if s.pct(60) { *s.pick(&[0.0, 1.0, 1.5, 2.0]) } else { gen_float(s) })
            }
            n if prelude(n, &t("")) == Some(R::Ok) && prelude(n, &V::Null) != Some(R::Ok) => {
                if s.pct(80) {
                    t(*s.pick(&["a", "b", "c", "d", "x", ""]))
                } else {
                    V::Text(gen_text(s))
                }
            }
            n if prelude(n, &V::Bytes(vec![])) == Some(R::Ok) && prelude(n, &V::Null) != Some(R::Ok) => {
                V::Bytes(if s.bool() { b"a".to_vec() } else { gen_bytes(s) })
            }
            n if UNSUPPORTED.contains(&n) => return None,
            _ => self.any(s),
        })
    }

    fn lit(l: &Lit) -> V {
        match l {
            Lit::Text(x) => V::Text(x.clone()),
            Lit::Int(i) => V::Int(*i),
            Lit::Float(f) => V::Float(*f),
            Lit::Bytes(b) => V::Bytes(b.clone()),
        }
    }

    pub fn t1(&mut self, s: &mut Src, t: &'a T1, env: &E<'a>) -> Option<V> {
        if !self.tick() {
            return None;
        }
        match t {
            T1::S(x) => self.t2(s, x, env),
            T1::Range(a, inc, b) => {
                let (a, b) = (self.m.const_of(a, env)?, self.m.const_of(b, env)?);
                match (a, b) {
                    (Lit::Int(a), Lit::Int(b)) => {
                        let hi = if *inc { *b } else { *b - 1 };
                        if hi < *a {
                            return Some(V::Int(*a));
                        }
                        Some(V::Int(match s.us(4) {
                            0 => *a,
                            1 => hi,
                            _ => *a + (s.below(((hi - *a).min(1000) + 1) as u64) as i128),
                        }))
                    }
                    (Lit::Float(a), Lit::Float(b)) => Some(V::Float(match s.us(3) {
                        0 => *a,
                        1 => *b,
                        _ => (*a + *b) / 2.0,
                    })),
                    _ => None,
                }
            }
            T1::Ctl(a, op, b) => match op.as_str() {
                "size" => {
                    let (lo, hi, _, _) = self.m.size_of(b, env)?;
                    let lo = lo.clamp(0, 64);
                    let hi = hi.clamp(lo, lo + 8);
                    let n = (lo + s.below((hi - lo + 1) as u64) as i128) as usize;
                    match self.m.base_of(a, env)? {
                        "uint" => Some(V::Int(if n == 0 { 0 } else { 1i128 << (8 * n.min(8) - 1) })),
                        x if prelude(x, &t_("")) == Some(R::Ok) => Some(V::Text("abcdefgh".chars().cycle().take(n).collect())),
                        _ => Some(V::Bytes(vec![1; n])),
                    }
                }
                "lt" | "le" | "gt" | "ge" => {
                    let Lit::Int(l) = self.m.const_of(b, env)? else { return None };
                    let d = s.range(0, 2) as i128;
                    Some(V::Int(if op.starts_with('l') { *l - d } else { *l + d }.clamp(-(1 << 63), (1 << 64) - 1)))
                }
                "regexp" => match b {
                    T2::Lit(Lit::Text(p)) => {
                        let r = rx::parse(p)?;
                        let mut o = String::new();
                        sample_rx(s, &r, &mut o);
                        Some(V::Text(o))
                    }
                    _ => None,
                },
                "cbor" => Some(V::Bytes(self.t2(s, b, env)?.cbor())),
                _ => None,
            },
        }
    }

    fn t2(&mut self, s: &mut Src, x: &'a T2, env: &E<'a>) -> Option<V> {
        if Model::depth_of(env) > 20 {
            return None;
        }
        match x {
            T2::Lit(l) => Some(Self::lit(l)),
            T2::Name(n, a) => match self.m.resolve(n, a, env) {
                Res::Prelude(p) => self.prelude(s, p),
                Res::Type(t, e) => self.ty(s, t, &e),
                Res::T1(t, e) => self.t1(s, t, &e),
                _ => None,
            },
            T2::Paren(t) => self.ty(s, t, env),
            T2::Arr(g) => {
                let mut o = vec![];
                self.agroup(s, g, env, &mut o)?;
                Some(V::Arr(o))
            }
            T2::Map(g) => {
                let mut o = vec![];
                self.mgroup(s, g, env, &mut o)?;
                Some(V::Map(o))
            }
            T2::Amp(n, a) => match self.m.resolve_group(n, a, env) {
                Ok((e, env)) => match &e.val {
                    EV::P(g) => self.amp(s, g, &env),
                    _ => None,
                },
                _ => None,
            },
            T2::AmpInline(g) => self.amp(s, g, env),
            T2::Unwrap(..) => None,
        }
    }

    fn amp(&mut self, s: &mut Src, g: &'a Group, env: &E<'a>) -> Option<V> {
        let c = g.0.first()?;
        let e = c.get(s.us(c.len()))?;
        match &e.val {
            EV::M(Some(_), t) => self.ty(s, t, env),
            EV::M(None, t) => {
                if let [T1::S(T2::Name(n, a))] = &t.0[..] {
                    if !is_prelude(n) {
                        if let Ok((Ent { val: EV::P(g), .. }, env)) = self.m.resolve_group(n, a, env) {
                            return self.amp(s, g, &env);
                        }
                    }
                }
                self.ty(s, t, env)
            }
            _ => None,
        }
    }

    fn times(&self, s: &mut Src, o: &Option<Occ>) -> usize {
        let Some(o) = o else { return 1 };
        let (lo, hi) = o.limits();
        let hi = hi.min(lo + 3);
        if hi < lo {
            return hi;
        }
        lo + s.us(hi - lo + 1)
    }

    fn agroup(&mut self, s: &mut Src, g: &'a Group, env: &E<'a>, o: &mut Vec<V>) -> Option<()> {
        let c = &g.0[s.us(g.0.len())];
        for e in c {
            self.aent(s, e, env, o)?;
        }
        Some(())
    }

    fn aent(&mut self, s: &mut Src, e: &'a Ent, env: &E<'a>, o: &mut Vec<V>) -> Option<()> {
        for _ in 0..self.times(s, &e.occ) {
            if o.len() > 40 || !self.tick() {
                return None;
            }
            match &e.val {
                EV::P(g) => self.agroup(s, g, env, o)?,
                EV::M(Some(_), t) => {
                    let v = self.ty(s, t, env)?;
                    o.push(v)
                }
                EV::M(None, t) => {
                    let x = &t.0[s.us(t.0.len())];
                    self.at1(s, x, env, o)?
                }
            }
        }
        Some(())
    }

    fn at1(&mut self, s: &mut Src, x: &'a T1, env: &E<'a>, o: &mut Vec<V>) -> Option<()> {
        if !self.tick() || Model::depth_of(env) > 20 {
            return None;
        }
        match x {
            T1::S(T2::Paren(t)) => {
                let i = s.us(t.0.len());
                self.at1(s, &t.0[i], env, o)
            }
            T1::S(T2::Name(n, a)) if !is_prelude(n) => match self.m.resolve(n, a, env) {
                Res::Type(t, e) => {
                    let i = s.us(t.0.len());
                    self.at1(s, &t.0[i], &e, o)
                }
                Res::T1(t, e) => self.at1(s, t, &e, o),
                Res::Group(g, e) => self.aent(s, g, &e, o),
                _ => None,
            },
            T1::S(T2::Unwrap(n, a)) => match self.m.resolve_container(n, a, env) {
                Ok((T2::Arr(g), e)) => self.agroup(s, g, &e, o),
                _ => None,
            },
            _ => {
                let v = self.t1(s, x, env)?;
                o.push(v);
                Some(())
            }
        }
    }

    fn mgroup(&mut self, s: &mut Src, g: &'a Group, env: &E<'a>, o: &mut Vec<(V, V)>) -> Option<()> {
        let c = &g.0[s.us(g.0.len())];
        for e in c {
            self.ment(s, e, env, o)?;
        }
        Some(())
    }

    fn ment(&mut self, s: &mut Src, e: &'a Ent, env: &E<'a>, o: &mut Vec<(V, V)>) -> Option<()> {
        for _ in 0..self.times(s, &e.occ) {
            if o.len() > 30 || !self.tick() {
                return None;
            }
            match &e.val {
                EV::P(g) => self.mgroup(s, g, env, o)?,
                EV::M(Some(k), t) => {
                    let mut key = None;
                    for _ in 0..4 {
                        let kv = match k {
                            Key::Bare(n) => t_(n),
                            Key::Val(l) => Self::lit(l),
                            Key::Ty(t, _) => self.t1(s, t, env)?,
                        };
                        if !o.iter().any(|(k2, _)| *k2 == kv) && (!self.json || matches!(kv, V::Text(_))) {
                            key = Some(kv);
                            break;
                        }
                    }
                    let Some(key) = key else { continue };
                    let v = self.ty(s, t, env)?;
                    o.push((key, v));
                }
                EV::M(None, t) => {
                    let i = s.us(t.0.len());
                    self.mt1(s, &t.0[i], env, o)?
                }
            }
        }
        Some(())
    }

    fn mt1(&mut self, s: &mut Src, x: &'a T1, env: &E<'a>, o: &mut Vec<(V, V)>) -> Option<()> {
        if !self.tick() || Model::depth_of(env) > 20 {
            return None;
        }
        match x {
            T1::S(T2::Name(n, a)) if !is_prelude(n) => match self.m.resolve(n, a, env) {
                Res::Group(g, e) => self.ment(s, g, &e, o),
                Res::Type(t, e) => {
                    let i = s.us(t.0.len());
                    self.mt1(s, &t.0[i], &e, o)
                }
                Res::T1(t, e) => self.mt1(s, t, &e, o),
                _ => None,
            },
            T1::S(T2::Paren(t)) => {
                let i = s.us(t.0.len());
                self.mt1(s, &t.0[i], env, o)
            }
            T1::S(T2::AmpInline(g)) => {
                let es = &g.0[s.us(g.0.len())];
                let e = es.get(s.us(es.len().max(1)))?;
                self.ment(s, e, env, o)
            }
            T1::S(T2::Unwrap(n, a)) => match self.m.resolve_container(n, a, env) {
                Ok((T2::Map(g), e)) => self.mgroup(s, g, &e, o),
                _ => None,
            },
            _ => None,
        }
    }
}

fn t_(n: &str) -> V {
    V::Text(n.to_string())
}

pub fn sample_rx(s: &mut Src, r: &Rx, o: &mut String) {
    if o.len() > 200 {
        return;
    }
    match r {
        Rx::Lit(c) | Rx::Hex(c) => o.push(*c),
        Rx::Bound(_) => {}
        Rx::Perl(c) => {
            let cs: &[char] = match c {
                'd' => &['0', '5', '9', '٣', '७', '３', '½', '²'],
                's' => &[' ', '\t', '\n', '\u{a0}', '\u{85}', '\u{2003}', '\u{3000}'],
                'w' => &['a', '_', 'é', '7', '漢', '٣'],
                'W' => &[' ', '-', '🦀', '\n'],
                'D' => &['a', ' ', 'é'],
                _ => &['a', '1', '_', '-'],
            };
            o.push(*s.pick(cs));
        }
        Rx::Dot(x) | Rx::Multi(x) | Rx::Lazy(x) | Rx::Group(_, x) => sample_rx(s, x, o),
        Rx::Any => o.push(*s.pick(&['a', 'b', '0', 'é', ' ', '\r', '\u{85}', '\u{2028}'])),
        Rx::Class(neg, rs) => {
            if *neg {
                for c in ['x', '9', '~', 'é', 'Q', ' ', '\u{1}'] {
                    if !rs.iter().any(|(a, b)| *a <= c && c <= *b) {
                        o.push(c);
                        return;
                    }
                }
            } else if let Some((a, b)) = rs.get(s.us(rs.len().max(1))) {
                let n = *b as u32 - *a as u32;
                o.push(char::from_u32(*a as u32 + s.below(n as u64 + 1) as u32).unwrap_or(*a));
            }
        }
        Rx::Cat(v) => v.iter().for_each(|x| sample_rx(s, x, o)),
        Rx::Alt(v) => {
            let i = s.us(v.len());
            sample_rx(s, &v[i], o)
        }
        Rx::Rep(x, lo, hi) => {
            let hi = (*hi).min(lo + 3);
            for _ in 0..*lo + s.us(hi - lo + 1) {
                sample_rx(s, x, o);
            }
        }
        Rx::Start | Rx::End => {}
        Rx::Ci(x) => {
            let n = o.len();
            sample_rx(s, x, o);
            if s.bool() {
                let up = o[n..].to_ascii_uppercase();
                o.truncate(n);
                o.push_str(&up);
            }
        }
    }
}

// ---------------------------------------------------------------- mutation

fn small(s: &mut Src, json: bool) -> V {
    let v = gen_small(s);
    if json && !v.json_ok() {
        V::Int(7)
    } else {
        v
    }
}

/// The same content as a value of another kind.
fn cousin(s: &mut Src, v: &V, json: bool) -> Option<V> {
    let r = match v {
        V::Int(i) => match s.us(3) {
            0 if i.unsigned_abs() < 1 << 50 => V::Float(*i as f64 + 0.0),
            1 => V::Arr(vec![v.clone()]),
            _ => V::Text(i.to_string()),
        },
        V::Text(x) => match x.parse::<i64>() {
            Ok(i) => V::Int(i as i128),
            Err(_) if json => match x.as_str() {
                "true" | "false" => V::Bool(x == "true"),
                "null" | "" => V::Null,
                _ => return None,
            },
            Err(_) => V::Bytes(x.clone().into_bytes()),
        },
        V::Bytes(b) => match String::from_utf8(b.clone()) {
            Ok(x) => V::Text(x),
            Err(_) => V::Arr(b.iter().map(|x| V::Int(*x as i128)).collect()),
        },
        V::Float(f) if f.fract() == 0.0 && f.abs() < 1e15 => V::Int(*f as i128),
        V::Float(f) if f.is_finite() => V::Text(format!("{:?}", f)),
        V::Bool(b) => match s.us(3) {
            0 => V::Int(*b as i128),
            1 => V::Text(b.to_string()),
            _ => V::Null,
        },
        V::Null => match s.us(4) {
            0 => V::Text("null".into()),
            1 => V::Bool(false),
            2 => V::Int(0),
            _ => V::Arr(vec![]),
        },
        // an array as a map of its positions, a map as an array
        V::Arr(a) => V::Map(
            a.iter()
                .enumerate()
                .map(|(i, x)| (if json { V::Text(i.to_string()) } else { V::Int(i as i128) }, x.clone()))
                .collect(),
        ),
        V::Map(m) => V::Arr(match s.us(3) {
            0 => m.iter().map(|(_, x)| x.clone()).collect(),
            1 => m.iter().flat_map(|(k, x)| [k.clone(), x.clone()]).collect(),
            _ => m.iter().map(|(k, x)| V::Arr(vec![k.clone(), x.clone()])).collect(),
        }),
        _ => return None,
    };
    if json && !r.json_ok() {
        return None;
    }
    Some(r)
}

/// A small change somewhere in the value.
pub fn mutate(s: &mut Src, v: &mut V, json: bool) {
    let n = v.size();
    let mut at = s.us(n);
    mutate_at(s, v, &mut at, json);
}

fn mutate_at(s: &mut Src, v: &mut V, at: &mut usize, json: bool) -> bool {
    if *at == 0 {
        mutate_here(s, v, json);
        return true;
    }
    *at -= 1;
    match v {
        V::Arr(a) => a.iter_mut().any(|x| mutate_at(s, x, at, json)),
        V::Map(m) => {
            for i in 0..m.len() {
                if json || matches!(m[i].0, V::Text(_)) {
                    if *at == 0 {
                        // rename the key
                        let mut k = t(*s.pick(&["a", "b", "c", "d", "e", "q", ""]));
                        if !json && s.pct(30) {
                            if let Some(x) = cousin(s, &m[i].0, json) {
                                k = x;
                            }
                        }
                        if !m.iter().any(|(k2, _)| *k2 == k) {
                            m[i].0 = k;
                        }
                        return true;
                    }
                    *at -= 1;
                } else {
                    let mut k = m[i].0.clone();
                    if mutate_at(s, &mut k, at, json) {
                        if !m.iter().any(|(k2, _)| *k2 == k) {
                            m[i].0 = k;
                        }
                        return true;
                    }
                }
                if mutate_at(s, &mut m[i].1, at, json) {
                    return true;
                }
            }
            false
        }
        _ => false,
    }
}

fn mutate_here(s: &mut Src, v: &mut V, json: bool) {
    if s.pct(8) {
        if let Some(x) = cousin(s, v, json) {
            *v = x;
            return;
        }
    }
    let w = s.us(10);
    match v {
        V::Arr(a) if w < 9 => match w {
            0 | 1 if !a.is_empty() => {
                let i = s.us(a.len());
                a.remove(i);
            }
            2 if !a.is_empty() => {
                let i = s.us(a.len());
                let x = a[i].clone();
                a.insert(i, x);
            }
            3 if a.len() > 1 => {
                let i = s.us(a.len() - 1);
                a.swap(i, i + 1);
            }
            4 if !a.is_empty() => {
                let i = s.us(a.len());
                a[i] = small(s, json);
            }
            5 => a.truncate(a.len() / 2),
            6 => {
                // nest a run of items
                if !a.is_empty() {
                    let i = s.us(a.len());
                    let x = a[i].clone();
                    a[i] = V::Arr(vec![x]);
                }
            }
            _ => {
                let i = s.us(a.len() + 1);
                let x = small(s, json);
                a.insert(i, x);
            }
        },
        V::Map(m) if w < 9 => match w {
            0..=2 if !m.is_empty() => {
                let i = s.us(m.len());
                m.remove(i);
            }
            3 | 4 if !m.is_empty() => {
                let i = s.us(m.len());
                m[i].1 = small(s, json);
            }
            5 if m.len() > 1 => {
                let i = s.us(m.len() - 1);
                let x = m[i].1.clone();
                m[i].1 = m[i + 1].1.clone();
                m[i + 1].1 = x;
            }
            _ => {
                let k = if json || s.pct(70) { t(*s.pick(&["a", "b", "c", "d", "e", "zz"])) } else { gen_small(s) };
                if !m.iter().any(|(k2, _)| *k2 == k) {
                    let x = small(s, json);
                    m.push((k, x));
                }
            }
        },
        V::Int(i) if w < 7 => {
            *i = match w {
                0 | 1 => *i + 1,
                2 | 3 => *i - 1,
                4 => -*i,
                5 => *i * 2,
                _ => s.range(-3, 7) as i128,
            }
            .clamp(if json { i64::MIN as i128 } else { -(1 << 64) }, (1 << 64) - 1)
        }
        V::Text(x) if w < 6 => match w {
            0 => x.push('a'),
            1 => {
                x.pop();
            }
            2 => x.insert(0, *s.pick(&['b', 'é', ' '])),
            3 => *x = x.to_ascii_uppercase(),
            _ => *x = (*s.pick(&["a", "b", "c", "d", "x", ""])).to_string(),
        },
        V::Bytes(b) if w < 5 => match w {
            0 => b.push(0),
            1 => {
                b.pop();
            }
            2 if !b.is_empty() => {
                let i = s.us(b.len());
                b[i] ^= 1 << s.us(8);
            }
            _ => b.insert(0, 0xf6),
        },
        V::Float(f) if w < 5 => {
            let g = match w {
                0 => *f + 0.5,
                1 => -*f,
                2 => f64::from_bits(f.to_bits().wrapping_add(1)),
                3 => *f * 2.0,
                _ => 1.5,
            };
            *f = if g.is_finite() && g != 0.0 { g } else { 1.0 };
        }
        V::Bool(b) if w < 4 => *b = !*b,
        _ => {
            *v = match w {
                7 => V::Arr(vec![v.clone()]),
                8 => V::Map(vec![(t("a"), v.clone())]),
                _ => small(s, json),
            }
        }
    }
}

/// A value for rule 0 of the schema: sampled, sampled and mutated, or random.
/// The second item: 0 sampled, 1 mutated, 2 random.
pub fn value_for(s: &mut Src, sch: &Schema, json: bool) -> (V, u8) {
    let w = s.weighted(&[50, 45, 5]);
    if w < 2 {
        let m = Model::new(sch);
        for _ in 0..3 {
            let mut sm = Sampler::new(&m, json);
            if let Some(mut v) = sm.rule(s, &sch.0[0]) {
                if json && !v.json_ok() {
                    continue;
                }
                if w == 1 {
                    for _ in 0..1 + s.us(2) {
                        mutate(s, &mut v, json);
                    }
                }
                if v.cbor_ok() && (!json || v.json_ok()) {
                    return (v, w as u8);
                }
            }
        }
    }
    (if json { gen_json_value(s, 2) } else { gen_value(s, 2) }, 2)
}

// ---------------------------------------------------------------- wrapping

/// Puts a type and a value into the same kind of surrounding.
pub struct Wrap {
    pub rules: Vec<Rule>,
    pub t: T1,
    pub v: V,
    n: usize,
}

const NEVER: &str = "\u{1}never";

impl Wrap {
    pub fn new(t: T1, v: V) -> Wrap {
        Wrap { rules: vec![], t, v, n: 0 }
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("{}-{}", ["w", "x.w", "intw", "W"][self.n % 4], self.n)
    }
    fn tt(&self) -> Type {
        ty(self.t.clone())
    }
    pub fn add(&mut self, s: &mut Src, json: bool) {
        let tt = self.tt();
        let v = std::mem::replace(&mut self.v, V::Null);
        let neighbour = |s: &mut Src| match s.us(3) {
            0 => (name("int"), V::Int(s.range(-2, 6) as i128)),
            1 => (lit_t("n"), t("n")),
            _ => (name("bool"), V::Bool(s.bool())),
        };
        let keyable = !json || matches!(v, V::Text(_));
        match s.us(16) {
            0 => {
                let n = self.fresh();
                self.rules.push(rule_t(&n, tt));
                self.t = name(&n);
                self.v = v;
            }
            1 => {
                self.t = T1::S(T2::Paren(tt));
                self.v = v;
            }
            2 => {
                let (mut es, mut vs) = (vec![], vec![]);
                for _ in 0..s.us(3) {
                    let (a, b) = neighbour(s);
                    es.push(ent1(a));
                    vs.push(b);
                }
                es.push(if s.bool() { kent(Key::Bare("k".into()), tt) } else { ent(tt) });
                vs.push(v);
                for _ in 0..s.us(3) {
                    let (a, b) = neighbour(s);
                    es.push(ent1(a));
                    vs.push(b);
                }
                self.t = arr(es);
                self.v = V::Arr(vs);
            }
            3 => {
                let k = 1 + s.us(3);
                let o = *s.pick(&[Occ::Star, Occ::Plus, Occ::N(Some(1), Some(3)), Occ::N(None, Some(5))]);
                self.t = arr(vec![oent(o, ent(tt))]);
                self.v = V::Arr(vec![v; k]);
            }
            4 => {
                self.t = arr(vec![oent(Occ::Opt, ent(tt))]);
                self.v = V::Arr(vec![v]);
            }
            5 => {
                let x = ty(T1::S(T2::Lit(Lit::Text(NEVER.into()))));
                let c = if s.bool() { vec![x.0[0].clone(), self.t.clone()] } else { vec![self.t.clone(), x.0[0].clone()] };
                self.t = T1::S(T2::Paren(Type(c)));
                self.v = v;
            }
            6 => {
                let mut es = vec![kent(Key::Bare("k".into()), tt)];
                let mut vs = vec![(t("k"), v)];
                if s.bool() {
                    es.insert(0, kent(Key::Bare("a".into()), tn("int")));
                    vs.push((t("a"), V::Int(1)));
                }
                if s.bool() {
                    es.push(oent(Occ::Star, kent(Key::Ty(name("tstr"), false), tn("any"))));
                    vs.push((t("zz"), V::Null));
                }
                self.t = map(es);
                self.v = V::Map(vs);
            }
            7 if keyable => {
                self.t = map(vec![kent(Key::Ty(self.t.clone(), s.bool()), tn("null"))]);
                self.v = V::Map(vec![(v, V::Null)]);
            }
            8 if keyable => {
                self.t = map(vec![oent(Occ::Star, kent(Key::Ty(self.t.clone(), s.bool()), tn("any")))]);
                self.v = V::Map(vec![(v, V::Bool(true))]);
            }
            9 => {
                let n = self.fresh();
                let p = s.pick(PNAMES).to_string();
                self.rules.push(Rule { name: n.clone(), params: vec![p.clone()], val: RV::T(tn(&p)) });
                self.t = T1::S(T2::Name(n, vec![self.t.clone()]));
                self.v = v;
            }
            10 => {
                let n = self.fresh();
                let p = s.pick(PNAMES).to_string();
                self.rules.push(Rule {
                    name: n.clone(),
                    params: vec![p.clone(), "q".into()],
                    val: RV::T(ty(arr(vec![ent(tn("q")), ent(tn(&p))]))),
                });
                self.t = T1::S(T2::Name(n, vec![self.t.clone(), name("int")]));
                self.v = V::Arr(vec![V::Int(3), v]);
            }
            11 => {
                let n = self.fresh();
                self.rules.push(rule_g(&n, pent(grp(vec![kent(Key::Bare("k".into()), tt)]))));
                if s.bool() {
                    self.t = arr(vec![ent1(name(&n))]);
                    self.v = V::Arr(vec![v]);
                } else {
                    self.t = map(vec![ent1(name(&n))]);
                    self.v = V::Map(vec![(t("k"), v)]);
                }
            }
            12 => {
                let n = self.fresh();
                self.rules.push(rule_t(&n, ty(arr(vec![ent(tt)]))));
                self.t = arr(vec![ent1(lit_i(1)), ent1(T1::S(T2::Unwrap(n, vec![])))]);
                self.v = V::Arr(vec![V::Int(1), v]);
            }
            13 => {
                let n = self.fresh();
                let x = kent(Key::Bare("z".into()), ty(lit_t(NEVER)));
                let k = kent(Key::Bare("k".into()), tt);
                self.rules.push(rule_g(&n, pent(grp(if s.bool() { vec![x, k] } else { vec![k, x] }))));
                self.t = T1::S(T2::Amp(n, vec![]));
                self.v = v;
            }
            14 if !json => {
                self.t = T1::Ctl(T2::Name("bstr".into(), vec![]), "cbor".into(), as_t2(&tt));
                self.v = V::Bytes(v.cbor());
            }
            _ => {
                let x = vec![ent1(lit_t(NEVER)), ent1(name("any"))];
                let k = vec![ent(tt)];
                self.t = T1::S(T2::Arr(Group(if s.bool() { vec![x, k] } else { vec![k, x] })));
                self.v = V::Arr(vec![v]);
            }
        }
    }
    /// The whole schema, with the wrapped type as its first rule.
    pub fn schema(&self, main: &str) -> Schema {
        let mut r = vec![rule_t(main, self.tt())];
        r.extend(self.rules.iter().cloned());
        Schema(r)
    }
}
