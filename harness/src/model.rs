//! Reference model: an independent validator over the harness's own syntax
//! tree and data model.
//!
//! It states the documented semantics directly: ordered choice, greedy
//! occurrences without backtracking into them, arrays consumed in order, map
//! members each taking one remaining entry, cuts, splicing of groups.  Where
//! the documentation does not say which of several matching map entries a
//! member takes, the model follows every one of them; if the verdict depends
//! on the pick, it answers `Ambig` and the case is not compared.

use crate::rx;
use crate::sch::*;
use crate::val::{decode_cbor, V};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum R {
    Ok,
    No,
    /// An error in the schema that validation must report.
    Fatal,
    /// Not determined by the documentation (or out of the model's reach).
    Ambig,
}

pub struct Env<'a> {
    params: Vec<(&'a str, &'a T1)>,
    parent: Option<Rc<Env<'a>>>,
    depth: u32,
}

pub struct Model<'a> {
    rules: HashMap<&'a str, &'a Rule>,
    fuel: std::cell::Cell<u64>,
    /// events, for classification
    pub ev: std::cell::RefCell<Ev>,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Ev {
    pub cut: u32,
    pub rollback: u32,
    pub occ_more: u32,
    pub param: u32,
    pub unwrap: u32,
    pub amp: u32,
    pub leftover: u32,
    pub zero_width: u32,
    pub lookups: u32,
    pub choice2: u32,
}

pub type E<'a> = Rc<Env<'a>>;

enum A {
    Ok(usize),
    No,
    Fatal,
    Ambig,
}

#[derive(Clone, Debug, Default)]
struct MO {
    ok: Vec<u128>,
    no: bool,
    cut: bool,
    fatal: bool,
    ambig: bool,
}

impl MO {
    fn one(m: u128) -> MO {
        MO { ok: vec![m], ..MO::default() }
    }
    fn no() -> MO {
        MO { no: true, ..MO::default() }
    }
    fn fatal() -> MO {
        MO { fatal: true, ..MO::default() }
    }
    fn ambig() -> MO {
        MO { ambig: true, ..MO::default() }
    }
    fn add_ok(&mut self, m: u128) {
        if !self.ok.contains(&m) {
            self.ok.push(m);
        }
    }
    fn add_bad(&mut self, o: &MO) {
        self.no |= o.no;
        self.cut |= o.cut;
        self.fatal |= o.fatal;
        self.ambig |= o.ambig;
    }
}

pub const PRELUDE: &[&str] = &[
    "any", "nil", "null", "bool", "false", "true", "int", "uint", "nint", "float", "float16", "float32", "float64",
    "float16-32", "float32-64", "tstr", "text", "bstr", "bytes", "tdate", "uri", "b64url", "b64legacy", "regexp",
    "mime-message", "biguint", "bignint", "encoded-cbor", "eb64url", "eb64legacy", "eb16", "cbor-any",
];
pub const UNSUPPORTED: &[&str] =
    &["time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined"];

pub fn is_prelude(n: &str) -> bool {
    PRELUDE.contains(&n) || UNSUPPORTED.contains(&n)
}

pub fn prelude(n: &str, v: &V) -> Option<R> {
    let b = |x: bool| Some(if x { R::Ok } else { R::No });
    match n {
        "any" | "eb64url" | "eb64legacy" | "eb16" | "cbor-any" => b(true),
        "nil" | "null" => b(matches!(v, V::Null)),
        "bool" => b(matches!(v, V::Bool(_))),
        "false" => b(matches!(v, V::Bool(false))),
        "true" => b(matches!(v, V::Bool(true))),
        "int" => b(matches!(v, V::Int(_))),
        "uint" => b(matches!(v, V::Int(i) if *i >= 0)),
        "nint" => b(matches!(v, V::Int(i) if *i < 0)),
        "float" | "float16" | "float32" | "float64" | "float16-32" | "float32-64" => b(matches!(v, V::Float(_))),
        "tstr" | "text" | "tdate" | "uri" | "b64url" | "b64legacy" | "regexp" | "mime-message" => {
            b(matches!(v, V::Text(_)))
        }
        "bstr" | "bytes" | "biguint" | "bignint" | "encoded-cbor" => b(matches!(v, V::Bytes(_))),
        n if UNSUPPORTED.contains(&n) => Some(R::Fatal),
        _ => None,
    }
}

pub fn lit_eq(l: &Lit, v: &V) -> R {
    let b = match (l, v) {
        (Lit::Text(a), V::Text(b)) => a == b,
        (Lit::Int(a), V::Int(b)) => a == b,
        (Lit::Float(a), V::Float(b)) => {
            if *a == 0.0 && *b == 0.0 && a.is_sign_negative() != b.is_sign_negative() {
                return R::Ambig;
            }
            a == b
        }
        (Lit::Bytes(a), V::Bytes(b)) => a == b,
        _ => false,
    };
    if b {
        R::Ok
    } else {
        R::No
    }
}

pub enum Res<'a> {
    Prelude(&'a str),
    Type(&'a Type, E<'a>),
    T1(&'a T1, E<'a>),
    Group(&'a Ent, E<'a>),
    Err,
    Deep,
}

impl<'a> Model<'a> {
    pub fn new(s: &'a Schema) -> Model<'a> {
        Model {
            rules: s.0.iter().map(|r| (r.name.as_str(), r)).collect(),
            fuel: std::cell::Cell::new(100_000),
            ev: Default::default(),
        }
    }

    pub fn check(&self, rule: &str, v: &V) -> R {
        let Some(r) = self.rules.get(rule) else { return R::Fatal };
        if !r.params.is_empty() {
            return R::Fatal;
        }
        let env = Rc::new(Env { params: vec![], parent: None, depth: 0 });
        let out = match &r.val {
            RV::T(t) => self.ty(t, &env, v),
            RV::G(e) => self.group_as_type(e, &env, v),
        };
        if self.fuel.get() == 0 {
            R::Ambig
        } else {
            out
        }
    }

    /// The work limit was reached (a wasteful schema, not an endless one).
    /// Every step can copy a container of the value.
    pub fn exhausted(&self, v: &V) -> bool {
        let used = 100_000 - self.fuel.get();
        self.fuel.get() == 0 || (used > 10_000 && used * v.size() as u64 > 2_000_000)
    }

    pub fn root_env(&self) -> E<'a> {
        Rc::new(Env { params: vec![], parent: None, depth: 0 })
    }

    pub fn depth_of(env: &E<'a>) -> u32 {
        env.depth
    }

    fn tick(&self) -> bool {
        let f = self.fuel.get();
        if f == 0 {
            return false;
        }
        self.fuel.set(f - 1);
        true
    }

    pub fn resolve(&self, n: &'a str, args: &'a [T1], env: &E<'a>) -> Res<'a> {
        if is_prelude(n) {
            return if args.is_empty() { Res::Prelude(n) } else { Res::Err };
        }
        if let Some((_, t)) = env.params.iter().find(|(p, _)| *p == n) {
            self.ev.borrow_mut().param += 1;
            // An argument means what it means where it was written.
            return Res::T1(t, env.parent.clone().unwrap());
        }
        if env.depth >= 42 {
            return Res::Deep;
        }
        let Some(r) = self.rules.get(n) else { return Res::Err };
        if r.params.len() != args.len() {
            return Res::Err;
        }
        self.ev.borrow_mut().lookups += 1;
        let e = Rc::new(Env {
            params: r.params.iter().map(|p| p.as_str()).zip(args.iter()).collect(),
            parent: Some(env.clone()),
            depth: env.depth + 1,
        });
        match &r.val {
            RV::T(t) => Res::Type(t, e),
            RV::G(g) => Res::Group(g, e),
        }
    }

    fn ty(&self, t: &'a Type, env: &E<'a>, v: &V) -> R {
        for (i, x) in t.0.iter().enumerate() {
            match self.t1(x, env, v) {
                R::No => {}
                r => {
                    if i > 0 && r == R::Ok {
                        self.ev.borrow_mut().choice2 += 1;
                    }
                    return r;
                }
            }
        }
        R::No
    }

    fn t1(&self, t: &'a T1, env: &E<'a>, v: &V) -> R {
        if !self.tick() {
            return R::Ambig;
        }
        match t {
            T1::S(t2) => self.t2(t2, env, v),
            T1::Range(a, inc, b) => {
                let (Some(a), Some(b)) = (self.const_of(a, env), self.const_of(b, env)) else { return R::Fatal };
                in_range(a, b, *inc, v)
            }
            T1::Ctl(a, op, b) => self.ctl(a, op, b, env, v),
        }
    }

    fn t2(&self, t: &'a T2, env: &E<'a>, v: &V) -> R {
        match t {
            T2::Lit(l) => lit_eq(l, v),
            T2::Name(n, args) => match self.resolve(n, args, env) {
                Res::Prelude(n) => prelude(n, v).unwrap(),
                Res::Type(t, e) => self.ty(t, &e, v),
                Res::T1(t, e) => self.t1(t, &e, v),
                Res::Group(g, e) => self.group_as_type(g, &e, v),
                Res::Err => R::Fatal,
                Res::Deep => R::Ambig,
            },
            T2::Paren(t) => self.ty(t, env, v),
            T2::Map(g) => match v {
                V::Map(m) => self.map(g, env, m),
                _ => R::No,
            },
            T2::Arr(g) => match v {
                V::Arr(a) => match self.agroup(g, env, a, 0) {
                    A::Ok(p) if p == a.len() => R::Ok,
                    A::Ok(_) => {
                        self.ev.borrow_mut().leftover += 1;
                        R::No
                    }
                    A::No => R::No,
                    A::Fatal => R::Fatal,
                    A::Ambig => R::Ambig,
                },
                _ => R::No,
            },
            T2::Unwrap(..) => R::Fatal,
            T2::Amp(n, args) => match self.resolve_group(n, args, env) {
                Ok((e, env)) => match &e.val {
                    EV::P(g) if e.occ.is_none() => self.amp(g, &env, v),
                    _ => R::Fatal,
                },
                Err(r) => r,
            },
            T2::AmpInline(g) => self.amp(g, env, v),
        }
    }

    /// Follow names until a group rule.
    pub fn resolve_group(&self, n: &'a str, args: &'a [T1], env: &E<'a>) -> Result<(&'a Ent, E<'a>), R> {
        match self.resolve(n, args, env) {
            Res::Group(g, e) => Ok((g, e)),
            Res::Type(Type(t), e) => match &t[..] {
                [T1::S(T2::Name(n2, a2))] => self.resolve_group(n2, a2, &e),
                _ => Err(R::Fatal),
            },
            Res::Deep => Err(R::Ambig),
            _ => Err(R::Fatal),
        }
    }

    fn amp(&self, g: &'a Group, env: &E<'a>, v: &V) -> R {
        self.ev.borrow_mut().amp += 1;
        if g.0.len() != 1 {
            return R::Ambig;
        }
        for e in &g.0[0] {
            if e.occ.is_some() {
                return R::Ambig;
            }
            let r = match &e.val {
                EV::M(Some(_), t) => self.ty(t, env, v),
                EV::M(None, t) => match &t.0[..] {
                    [T1::S(T2::Name(n, args))] if !is_prelude(n) => match self.resolve_group(n, args, env) {
                        Ok((Ent { occ: None, val: EV::P(g) }, env)) => self.amp(g, &env, v),
                        Ok(_) => R::Ambig,
                        // a member naming a type: not settled
                        Err(_) => R::Ambig,
                    },
                    _ => self.ty(t, env, v),
                },
                EV::P(_) => R::Ambig,
            };
            if r != R::No {
                return r;
            }
        }
        R::No
    }

    /// A group where one value is expected: only a single unkeyed type works.
    fn group_as_type(&self, e: &'a Ent, env: &E<'a>, v: &V) -> R {
        if e.occ.is_some() {
            return R::Ambig;
        }
        match &e.val {
            EV::M(None, t) => self.ty(t, env, v),
            EV::P(Group(c)) if c.len() == 1 && c[0].len() == 1 => self.group_as_type(&c[0][0], env, v),
            _ => R::Ambig,
        }
    }

    pub fn const_of(&self, t: &'a T2, env: &E<'a>) -> Option<&'a Lit> {
        match t {
            T2::Lit(l) => Some(l),
            T2::Paren(Type(v)) => match &v[..] {
                [T1::S(t)] => self.const_of(t, env),
                _ => None,
            },
            T2::Name(n, a) => match self.resolve(n, a, env) {
                Res::Type(Type(v), e) => match &v[..] {
                    [T1::S(t)] => self.const_of(t, &e),
                    _ => None,
                },
                Res::T1(T1::S(t), e) => self.const_of(t, &e),
                _ => None,
            },
            _ => None,
        }
    }

    pub fn base_of(&self, t: &'a T2, env: &E<'a>) -> Option<&'a str> {
        match t {
            T2::Paren(Type(v)) => match &v[..] {
                [T1::S(t)] => self.base_of(t, env),
                _ => None,
            },
            T2::Name(n, a) => match self.resolve(n, a, env) {
                Res::Prelude(p) => Some(p),
                Res::Type(Type(v), e) => match &v[..] {
                    [T1::S(t)] => self.base_of(t, &e),
                    _ => None,
                },
                Res::T1(T1::S(t), e) => self.base_of(t, &e),
                _ => None,
            },
            _ => None,
        }
    }

    /// The argument of `.size`: a literal (N, N, true) or a literal range.
    pub fn size_of(&self, t: &'a T2, env: &E<'a>) -> Option<(i128, i128, bool, bool)> {
        fn of_t1<'a>(m: &Model<'a>, t: &'a T1, env: &E<'a>) -> Option<(i128, i128, bool, bool)> {
            match t {
                T1::S(t2) => m.size_of(t2, env),
                T1::Range(T2::Lit(Lit::Int(a)), inc, T2::Lit(Lit::Int(b))) => Some((*a, *b, *inc, false)),
                _ => None,
            }
        }
        match t {
            T2::Lit(Lit::Int(i)) => Some((*i, *i, true, true)),
            T2::Paren(Type(v)) if v.len() == 1 => of_t1(self, &v[0], env),
            T2::Name(n, a) => match self.resolve(n, a, env) {
                Res::Type(Type(v), e) if v.len() == 1 => of_t1(self, &v[0], &e),
                Res::T1(t, e) => of_t1(self, t, &e),
                _ => None,
            },
            _ => None,
        }
    }

    fn ctl(&self, a: &'a T2, op: &str, b: &'a T2, env: &E<'a>, v: &V) -> R {
        let yes = |x: bool| if x { R::Ok } else { R::No };
        match op {
            "size" => {
                let Some((lo, hi, inc, exact)) = self.size_of(b, env) else { return R::Fatal };
                let Some(base) = self.base_of(a, env) else { return R::Fatal };
                let kind = match base {
                    "uint" => 0,
                    b if prelude(b, &V::Text(String::new())) == Some(R::Ok) && b != "any" && !any_like(b) => 1,
                    b if prelude(b, &V::Bytes(vec![])) == Some(R::Ok) && b != "any" && !any_like(b) => 2,
                    _ => return R::Fatal,
                };
                if lo < 0 || hi < 0 {
                    return R::Fatal;
                }
                size_ok(kind, lo, hi, inc, exact, v)
            }
            "lt" | "le" | "gt" | "ge" => {
                let Some(Lit::Int(lim)) = self.const_of(b, env) else { return R::Fatal };
                let Some(base) = self.base_of(a, env) else { return R::Fatal };
                let V::Int(x) = v else {
                    return if ["int", "uint", "nint"].contains(&base) { R::No } else { R::Fatal };
                };
                let dom = match base {
                    "int" => true,
                    "uint" => *x >= 0,
                    "nint" => *x < 0,
                    _ => return R::Fatal,
                };
                let c = match op {
                    "lt" => x < lim,
                    "le" => x <= lim,
                    "gt" => x > lim,
                    _ => x >= lim,
                };
                yes(dom && c)
            }
            "regexp" => {
                let (T2::Name(..), T2::Lit(Lit::Text(p))) = (a, b) else { return R::Ambig };
                let V::Text(t) = v else { return R::No };
                match rx::parse(p).and_then(|r| rx::search(&r, t)) {
                    Some(x) => yes(x),
                    None => R::Ambig,
                }
            }
            "cbor" => {
                let V::Bytes(bs) = v else { return R::No };
                match decode_cbor(bs) {
                    Ok(inner) => self.t2(b, env, &inner),
                    Err(true) => R::No,
                    Err(false) => R::Ambig,
                }
            }
            _ => R::Fatal,
        }
    }

    // ------------------------------------------------------------- arrays

    fn agroup(&self, g: &'a Group, env: &E<'a>, items: &[V], pos: usize) -> A {
        for (i, c) in g.0.iter().enumerate() {
            match self.aseq(c, env, items, pos) {
                A::No => {
                    if i + 1 < g.0.len() {
                        self.ev.borrow_mut().rollback += 1;
                    }
                }
                r => return r,
            }
        }
        A::No
    }

    fn aseq(&self, c: &'a [Ent], env: &E<'a>, items: &[V], pos: usize) -> A {
        let mut p = pos;
        for e in c {
            match self.aent(e, env, items, p) {
                A::Ok(q) => p = q,
                r => return r,
            }
        }
        A::Ok(p)
    }

    fn aent(&self, e: &'a Ent, env: &E<'a>, items: &[V], pos: usize) -> A {
        let Some(o) = &e.occ else { return self.aval(&e.val, env, items, pos) };
        let (lo, hi) = o.limits();
        let mut p = pos;
        let mut n = 0usize;
        while n < hi {
            if !self.tick() {
                return A::Ambig;
            }
            match self.aval(&e.val, env, items, p) {
                A::Ok(q) => {
                    if q == p {
                        // Matches without consuming: any number of times.
                        self.ev.borrow_mut().zero_width += 1;
                        n = hi;
                        break;
                    }
                    p = q;
                    n += 1;
                }
                A::No => break,
                r => return r,
            }
        }
        if n > 1 {
            self.ev.borrow_mut().occ_more += 1;
        }
        if n < lo {
            A::No
        } else {
            A::Ok(p)
        }
    }

    fn aval(&self, val: &'a EV, env: &E<'a>, items: &[V], pos: usize) -> A {
        if !self.tick() {
            return A::Ambig;
        }
        match val {
            EV::P(g) => self.agroup(g, env, items, pos),
            // Keys in arrays are only documentation.
            EV::M(Some(_), t) => self.aone(items, pos, |v| self.ty(t, env, v)),
            EV::M(None, t) => self.atype(t, env, items, pos),
        }
    }

    fn aone(&self, items: &[V], pos: usize, f: impl Fn(&V) -> R) -> A {
        match items.get(pos) {
            None => A::No,
            Some(v) => match f(v) {
                R::Ok => A::Ok(pos + 1),
                R::No => A::No,
                R::Fatal => A::Fatal,
                R::Ambig => A::Ambig,
            },
        }
    }

    fn atype(&self, t: &'a Type, env: &E<'a>, items: &[V], pos: usize) -> A {
        for x in &t.0 {
            match self.atype1(x, env, items, pos) {
                A::No => {}
                r => return r,
            }
        }
        A::No
    }

    fn atype1(&self, x: &'a T1, env: &E<'a>, items: &[V], pos: usize) -> A {
        match x {
            T1::S(T2::Paren(t)) => self.atype(t, env, items, pos),
            T1::S(T2::Name(n, args)) if !is_prelude(n) => match self.resolve(n, args, env) {
                Res::Type(t, e) => self.atype(t, &e, items, pos),
                Res::T1(t, e) => self.atype1(t, &e, items, pos),
                Res::Group(g, e) => self.aent(g, &e, items, pos),
                Res::Deep => A::Ambig,
                _ => A::Fatal,
            },
            T1::S(T2::Unwrap(n, args)) => match self.resolve_container(n, args, env) {
                Ok((T2::Arr(g), e)) => {
                    self.ev.borrow_mut().unwrap += 1;
                    self.agroup(g, &e, items, pos)
                }
                Ok(_) => A::Ambig,
                Err(R::Ambig) => A::Ambig,
                Err(_) => A::Fatal,
            },
            _ => self.aone(items, pos, |v| self.t1(x, env, v)),
        }
    }

    pub fn resolve_container(&self, n: &'a str, args: &'a [T1], env: &E<'a>) -> Result<(&'a T2, E<'a>), R> {
        match self.resolve(n, args, env) {
            Res::Type(Type(v), e) => match &v[..] {
                [T1::S(T2::Name(n2, a2))] => self.resolve_container(n2, a2, &e),
                [T1::S(t2)] => Ok((t2, e)),
                _ => Err(R::Ambig),
            },
            Res::T1(T1::S(T2::Name(n2, a2)), e) => self.resolve_container(n2, a2, &e),
            Res::T1(T1::S(t2), e) => Ok((t2, e)),
            Res::Err => Err(R::Fatal),
            _ => Err(R::Ambig),
        }
    }

    // --------------------------------------------------------------- maps

    fn map(&self, g: &'a Group, env: &E<'a>, m: &[(V, V)]) -> R {
        if m.len() > 127 {
            return R::Ambig;
        }
        let full: u128 = if m.is_empty() { 0 } else { (1u128 << m.len()) - 1 };
        let o = self.mgroup(g, env, m, full, false);
        if o.ambig {
            return R::Ambig;
        }
        let mut seen = Vec::new();
        for x in &o.ok {
            let r = if *x == 0 { R::Ok } else { R::No };
            if r == R::No {
                self.ev.borrow_mut().leftover += 1;
            }
            if !seen.contains(&r) {
                seen.push(r);
            }
        }
        if o.no || o.cut {
            // a cut fails this map, and only this map
            if !seen.contains(&R::No) {
                seen.push(R::No);
            }
        }
        if o.fatal {
            seen.push(R::Fatal);
        }
        if seen.len() == 1 {
            seen[0]
        } else {
            R::Ambig
        }
    }

    /// `boundary`: a real group, at whose edge a cut turns into a mismatch.
    fn mgroup(&self, g: &'a Group, env: &E<'a>, m: &[(V, V)], mask: u128, boundary: bool) -> MO {
        let choices = g.0.len() > 1;
        let mut out = MO::default();
        for (i, c) in g.0.iter().enumerate() {
            let mut r = self.mseq(c, env, m, mask);
            if (choices || boundary) && r.cut {
                r.cut = false;
                r.no = true;
            }
            for x in &r.ok {
                out.add_ok(*x);
            }
            let no = r.no;
            r.no = false;
            out.add_bad(&r);
            if !no {
                return out;
            }
            if i + 1 == g.0.len() {
                out.no = true;
            } else {
                self.ev.borrow_mut().rollback += 1;
            }
        }
        out
    }

    fn mseq(&self, c: &'a [Ent], env: &E<'a>, m: &[(V, V)], mask: u128) -> MO {
        let mut cur = vec![mask];
        let mut out = MO::default();
        for e in c {
            let mut next = MO::default();
            for x in &cur {
                let r = self.ment(e, env, m, *x);
                for y in &r.ok {
                    next.add_ok(*y);
                }
                next.add_bad(&r);
                if next.ok.len() > 256 {
                    return MO::ambig();
                }
            }
            out.add_bad(&next);
            cur = next.ok;
            if cur.is_empty() {
                return out;
            }
        }
        out.ok = cur;
        out
    }

    fn ment(&self, e: &'a Ent, env: &E<'a>, m: &[(V, V)], mask: u128) -> MO {
        let Some(o) = &e.occ else { return self.mval(&e.val, env, m, mask) };
        let (lo, hi) = o.limits();
        if let EV::M(Some(k), t) = &e.val {
            return self.mkey_rep(k, t, env, m, mask, lo, hi);
        }
        let mut out = MO::default();
        // (mask, count) frontier
        let mut cur: Vec<(u128, usize)> = vec![(mask, 0)];
        let mut steps = 0;
        while let Some((x, n)) = cur.pop() {
            steps += 1;
            if steps > 512 || !self.tick() {
                return MO::ambig();
            }
            if n >= hi {
                if n >= lo {
                    out.add_ok(x);
                } else {
                    out.no = true;
                }
                continue;
            }
            let mut r = self.mval(&e.val, env, m, x);
            if r.no {
                if n >= lo {
                    out.add_ok(x);
                } else {
                    out.no = true;
                }
            }
            r.no = false;
            out.add_bad(&r);
            for y in &r.ok {
                if *y == x {
                    self.ev.borrow_mut().zero_width += 1;
                    if hi >= lo {
                        out.add_ok(x);
                    } else {
                        out.no = true;
                    }
                } else if !cur.contains(&(*y, n + 1)) {
                    if n + 1 > 1 {
                        self.ev.borrow_mut().occ_more += 1;
                    }
                    cur.push((*y, n + 1));
                }
            }
        }
        out
    }

    fn is_cut(k: &Key) -> bool {
        match k {
            Key::Bare(_) | Key::Val(_) => true,
            Key::Ty(_, c) => *c,
        }
    }

    fn key_match(&self, k: &'a Key, env: &E<'a>, v: &V) -> R {
        match k {
            Key::Bare(n) => {
                if matches!(v, V::Text(t) if t == n) {
                    R::Ok
                } else {
                    R::No
                }
            }
            Key::Val(l) => lit_eq(l, v),
            Key::Ty(t, _) => self.t1(t, env, v),
        }
    }

    /// Classify the remaining entries for one member:
    /// (matching, key matches but value does not, fatal, ambiguous).
    fn classify(
        &self,
        k: &'a Key,
        t: &'a Type,
        env: &E<'a>,
        m: &[(V, V)],
        mask: u128,
    ) -> (Vec<usize>, Vec<usize>, bool, bool) {
        let (mut good, mut bad, mut fatal, mut ambig) = (vec![], vec![], false, false);
        for (i, (kv, vv)) in m.iter().enumerate() {
            if mask >> i & 1 == 0 {
                continue;
            }
            match self.key_match(k, env, kv) {
                R::Ok => match self.ty(t, env, vv) {
                    R::Ok => good.push(i),
                    R::No => bad.push(i),
                    R::Fatal => fatal = true,
                    R::Ambig => ambig = true,
                },
                R::No => {}
                R::Fatal => fatal = true,
                R::Ambig => ambig = true,
            }
        }
        (good, bad, fatal, ambig)
    }

    fn mkey(&self, k: &'a Key, t: &'a Type, env: &E<'a>, m: &[(V, V)], mask: u128) -> MO {
        let (good, bad, fatal, ambig) = self.classify(k, t, env, m, mask);
        if ambig {
            return MO::ambig();
        }
        let mut out = MO { fatal, ..MO::default() };
        for i in &good {
            out.add_ok(mask & !(1 << i));
        }
        if Self::is_cut(k) && !bad.is_empty() {
            self.ev.borrow_mut().cut += 1;
            out.cut = true;
        }
        if out.ok.is_empty() && !out.cut && !fatal {
            out.no = true;
        }
        out
    }

    #[allow(clippy::too_many_arguments)]
    fn mkey_rep(
        &self,
        k: &'a Key,
        t: &'a Type,
        env: &E<'a>,
        m: &[(V, V)],
        mask: u128,
        lo: usize,
        hi: usize,
    ) -> MO {
        if hi == 0 {
            return if lo == 0 { MO::one(mask) } else { MO::no() };
        }
        let (good, bad, fatal, ambig) = self.classify(k, t, env, m, mask);
        if ambig {
            return MO::ambig();
        }
        if fatal {
            return if good.is_empty() && (bad.is_empty() || !Self::is_cut(k)) { MO::fatal() } else { MO::ambig() };
        }
        let cut = Self::is_cut(k) && !bad.is_empty();
        if good.len() > 1 {
            self.ev.borrow_mut().occ_more += 1;
        }
        if cut {
            self.ev.borrow_mut().cut += 1;
            if good.len() < hi {
                // whatever the order, a mismatching entry is met in the end
                return MO { cut: true, ..MO::default() };
            }
        } else if good.len() <= hi {
            if good.len() < lo {
                return MO::no();
            }
            let mut x = mask;
            for i in good {
                x &= !(1 << i);
            }
            return MO::one(x);
        }
        // More candidates than the member may take: every subset is possible.
        let mut out = MO { cut, ..MO::default() };
        let mut cur: Vec<u128> = vec![mask];
        for _ in 0..hi {
            let mut next: Vec<u128> = vec![];
            for x in &cur {
                for i in &good {
                    if x >> i & 1 == 1 {
                        let y = x & !(1 << i);
                        if !next.contains(&y) {
                            next.push(y);
                        }
                    }
                }
                if next.len() > 256 {
                    return MO::ambig();
                }
            }
            cur = next;
        }
        if hi < lo {
            out.no = true;
        } else {
            out.ok = cur;
        }
        out
    }

    fn mval(&self, val: &'a EV, env: &E<'a>, m: &[(V, V)], mask: u128) -> MO {
        if !self.tick() {
            return MO::ambig();
        }
        match val {
            EV::P(g) => self.mgroup(g, env, m, mask, true),
            EV::M(Some(k), t) => self.mkey(k, t, env, m, mask),
            EV::M(None, t) => self.mtype(t, env, m, mask),
        }
    }

    fn mtype(&self, t: &'a Type, env: &E<'a>, m: &[(V, V)], mask: u128) -> MO {
        self.first_of(t.0.len(), &|i| self.mtype1(&t.0[i], env, m, mask))
    }

    /// The first alternative that matches; anything but a mismatch ends the search.
    fn first_of(&self, n: usize, f: &dyn Fn(usize) -> MO) -> MO {
        let mut out = MO::default();
        for i in 0..n {
            let mut r = f(i);
            for x in &r.ok {
                out.add_ok(*x);
            }
            let no = r.no;
            r.no = false;
            out.add_bad(&r);
            if !no {
                return out;
            }
        }
        out.no = true;
        out
    }

    /// `&group` among the members of a map: each member of the group is an alternative.
    fn mamp(&self, g: &'a Group, env: &E<'a>, m: &[(V, V)], mask: u128) -> MO {
        self.ev.borrow_mut().amp += 1;
        if g.0.len() != 1 {
            return self.mgroup(g, env, m, mask, true);
        }
        let es = &g.0[0];
        self.first_of(es.len(), &|i| match &es[i] {
            Ent { occ: None, val: EV::M(Some(_), t) } => self.mtype(t, env, m, mask),
            Ent { occ: None, val: EV::M(None, t) } => match &t.0[..] {
                [T1::S(T2::Name(n, args))] if !is_prelude(n) => self.mamp_name(n, args, env, m, mask),
                _ => self.mtype(t, env, m, mask),
            },
            e => self.ment(e, env, m, mask),
        })
    }

    fn mamp_name(&self, n: &'a str, args: &'a [T1], env: &E<'a>, m: &[(V, V)], mask: u128) -> MO {
        match self.resolve_group(n, args, env) {
            Ok((Ent { occ: None, val: EV::P(g) }, e)) => self.mamp(g, &e, m, mask),
            Ok(_) | Err(R::Ambig) => MO::ambig(),
            Err(_) => MO::fatal(),
        }
    }

    fn mtype1(&self, x: &'a T1, env: &E<'a>, m: &[(V, V)], mask: u128) -> MO {
        match x {
            T1::S(T2::Paren(t)) => self.mtype(t, env, m, mask),
            T1::S(T2::Name(n, args)) if !is_prelude(n) => match self.resolve(n, args, env) {
                Res::Group(g, e) => self.ment(g, &e, m, mask),
                Res::Type(t, e) => self.mtype(t, &e, m, mask),
                Res::T1(t, e) => self.mtype1(t, &e, m, mask),
                Res::Deep => MO::ambig(),
                _ => MO::fatal(),
            },
            T1::S(T2::Unwrap(n, args)) => match self.resolve_container(n, args, env) {
                Ok((T2::Map(g), e)) => {
                    self.ev.borrow_mut().unwrap += 1;
                    // The members are spliced in; no group boundary is added.
                    self.mgroup(g, &e, m, mask, false)
                }
                Ok(_) => MO::ambig(),
                Err(R::Ambig) => MO::ambig(),
                Err(_) => MO::fatal(),
            },
            T1::S(T2::Amp(n, args)) => self.mamp_name(n, args, env, m, mask),
            T1::S(T2::AmpInline(g)) => {
                self.ev.borrow_mut().amp += 1;
                match &g.0[..] {
                    [es] => self.first_of(es.len(), &|i| self.ment(&es[i], env, m, mask)),
                    _ => self.mgroup(g, env, m, mask, true),
                }
            }
            _ => MO::fatal(),
        }
    }
}

fn any_like(b: &str) -> bool {
    ["any", "eb64url", "eb64legacy", "eb16", "cbor-any"].contains(&b)
}

pub fn in_range(a: &Lit, b: &Lit, inc: bool, v: &V) -> R {
    let yes = |x: bool| if x { R::Ok } else { R::No };
    match (a, b) {
        (Lit::Int(a), Lit::Int(b)) => match v {
            V::Int(x) => yes(a <= x && (x < b || (inc && x == b))),
            _ => R::No,
        },
        (Lit::Float(a), Lit::Float(b)) => match v {
            V::Float(x) => yes(a <= x && (x < b || (inc && x == b))),
            _ => R::No,
        },
        (Lit::Text(_), Lit::Text(_)) | (Lit::Bytes(_), Lit::Bytes(_)) => R::Ambig,
        _ => R::Fatal,
    }
}

/// kind: 0 uint, 1 text, 2 bytes. `exact`: the argument was a single number.
pub fn size_ok(kind: u8, lo: i128, hi: i128, inc: bool, exact: bool, v: &V) -> R {
    let within = |n: i128| {
        if n >= lo && (n < hi || (inc && n == hi)) {
            R::Ok
        } else {
            R::No
        }
    };
    match (kind, v) {
        (0, V::Int(x)) => {
            if *x < 0 {
                return R::No;
            }
            // bytes needed: the number of base-256 digits
            let mut n = 0i128;
            let mut y = *x;
            while y > 0 {
                y /= 256;
                n += 1;
            }
            if exact || (lo == hi && inc) {
                // `.size N` on an integer: 0 <= x < 256^N
                if n <= hi {
                    R::Ok
                } else {
                    R::No
                }
            } else {
                within(n)
            }
        }
        (1, V::Text(t)) => within(t.len() as i128),
        (2, V::Bytes(b)) => within(b.len() as i128),
        _ => R::No,
    }
}
