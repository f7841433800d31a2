//! One module per family of properties; `PROPS` lists the checks.

use crate::api::{self, Path, Y};
use crate::engine::{Case, Out, Prop};
use crate::gen::{self, Cfg};
use crate::model::{Ev, Model, R};
use crate::sch::*;
use crate::src::Src;
use crate::val::V;

pub mod enc;
pub mod fuzz;
pub mod large;
pub mod robust;
pub mod rules;
pub mod scalar;
pub mod shape;
pub mod text;
pub mod work;

pub const PROPS: &[Prop] = &[
    scalar::C01,
    shape::C02,
    shape::C03,
    shape::C04,
    shape::C05,
    shape::C06,
    rules::C07,
    rules::C08,
    rules::C09,
    rules::C10,
    scalar::C11,
    scalar::C12,
    scalar::C13,
    scalar::C14,
    scalar::C15,
    enc::C16,
    enc::C17,
    text::C18,
    text::C19,
    text::C20,
    fuzz::C21,
    robust::C22,
    robust::C23,
    robust::C24,
    text::C25,
    fuzz::C26,
    rules::C27,
    text::C28,
    text::C29,
    work::C30,
    work::C31,
];

pub fn child(cmd: &str, _args: &[String]) -> i32 {
    match cmd {
        "deep" => fuzz::deep(),
        _ => 2,
    }
}

pub fn show(sch: &str, rule: &str, v: &V) -> String {
    format!("schema:\n{}rule {}, value {}", sch, rule, v.show())
}

/// Does the verdict of the code under test fit the model's?
pub fn fits(m: R, got: &Y) -> bool {
    match (m, got) {
        (R::Ok, Y::Ok) | (R::No, Y::No) => true,
        (R::Fatal, Y::Err(k)) => !matches!(k, api::K::Parse | api::K::Value),
        (R::Ambig, g) => !matches!(g, Y::P(_)),
        _ => false,
    }
}

pub struct Diff {
    pub m: R,
    pub ev: Ev,
    pub text: String,
}

/// The model's verdict on rule 0 against that of the code under test.
pub fn diff(c: &mut Case, s: &mut Src, sch: &Schema, v: &V) -> Result<Diff, Out> {
    let model = Model::new(sch);
    let rule = &sch.0[0].name;
    let m = model.check(rule, v);
    let ev = *model.ev.borrow();
    if model.exhausted(v) {
        return Err(Out::Discard);
    }
    let text = sch.text();
    let p = Path::pick(s, v);
    c.execs += 1;
    let got = api::run(p, rule, &text, v);
    if m == R::Ambig {
        if let Y::P(x) = got {
            return Err(Out::Fail(format!("{}\npanic: {}", show(&text, rule, v), x)));
        }
        return Err(Out::Discard);
    }
    if !fits(m, &got) {
        return Err(Out::Fail(format!("{}\nvia {:?}: got {:?}, expected {:?}", show(&text, rule, v), p, got, m)));
    }
    Ok(Diff { m, ev, text })
}

pub fn verdict_label(r: R) -> &'static str {
    match r {
        R::Ok => "match",
        R::No => "mismatch",
        R::Fatal => "schema error",
        R::Ambig => "open",
    }
}

/// Random schema, value, model.
pub fn diff_case(c: &mut Case, s: &mut Src, cfg: &Cfg) -> Result<(Diff, Schema, V, u8), Out> {
    let mut sch = gen::schema(s, cfg);
    let (v, how) = gen::value_for(s, &sch, cfg.json);
    if s.pct(10) {
        sch = rules::rename_all(s, &sch);
        c.label("unusual names");
    }
    let d = diff(c, s, &sch, &v)?;
    c.label(verdict_label(d.m));
    c.label(["sampled", "mutated", "random"][how as usize]);
    Ok((d, sch, v, how))
}

/// Ordered choice over recursive rules can take time exponential in the depth
/// of the data; such cases are left out.
/// The model has no verdict, or finding one took too long.
pub fn open(sch: &Schema, rule: &str, v: &V) -> bool {
    let m = Model::new(sch);
    m.check(rule, v) == R::Ambig || m.exhausted(v)
}

pub fn heavy(sch: &Schema, rule: &str, v: &V) -> bool {
    let m = Model::new(sch);
    m.check(rule, v);
    m.exhausted(v)
}
