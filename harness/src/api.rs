//! Running the code under test.  Every call is guarded: a panic inside it is
//! a verdict (`P`), not the end of the process.

use crate::val::V;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::util::ValidateError;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Y {
    Ok,
    /// The data does not match.
    No,
    /// Any other error, by kind.
    Err(K),
    /// The code under test panicked.
    P(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Parse,
    Structural,
    MissingRule,
    Unsupported,
    Value,
    Generic,
    Other,
}

impl Y {
    pub fn is_err(&self) -> bool {
        matches!(self, Y::Err(_))
    }
}

thread_local! {
    static GUARD: Cell<u32> = const { Cell::new(0) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if GUARD.with(|g| g.get()) == 0 {
            old(i)
        }
    }));
}

/// Run code under test; Err is the message of its panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

pub fn class(r: Result<(), ValidateError>) -> Y {
    match r {
        Ok(()) => Y::Ok,
        Err(e) => match e {
            ValidateError::Mismatch(_) | ValidateError::MapCut(_) => Y::No,
            ValidateError::ParseError(_) => Y::Err(K::Parse),
            ValidateError::Structural(_) => Y::Err(K::Structural),
            ValidateError::MissingRule(_) => Y::Err(K::MissingRule),
            ValidateError::Unsupported(_) => Y::Err(K::Unsupported),
            ValidateError::ValueError(_) => Y::Err(K::Value),
            ValidateError::GenericError => Y::Err(K::Generic),
            _ => Y::Err(K::Other),
        },
    }
}

pub fn y(r: Result<Result<(), ValidateError>, String>) -> Y {
    match r {
        Ok(r) => class(r),
        Err(m) => Y::P(m),
    }
}

pub fn cbor_bytes(rule: &str, text: &str, bytes: &[u8]) -> Y {
    y(guard(|| cddl_cat::validate_cbor_bytes(rule, text, bytes)))
}

pub fn json_str(rule: &str, text: &str, json: &str) -> Y {
    y(guard(|| cddl_cat::validate_json_str(rule, text, json)))
}

/// The rules of a schema, ready for the two-step interface.
pub fn context(text: &str) -> Result<BasicContext, Y> {
    match guard(|| cddl_cat::flatten::flatten_from_str(text)) {
        Err(m) => Err(Y::P(m)),
        Ok(Err(e)) => Err(class(Err(e))),
        Ok(Ok(rules)) => Ok(BasicContext::new(rules)),
    }
}

/// The same rules by another of the library's ways to prepare a schema.
pub fn context_by(how: usize, text: &str) -> Result<BasicContext, Y> {
    use cddl_cat::{flatten as fl, parser as pa};
    let r = guard(|| -> Result<cddl_cat::ivt::RulesByName, ValidateError> {
        Ok(match how {
            0 => fl::slice_flatten_from_str(text)?.into_iter().map(|(n, (d, _))| (n, d)).collect(),
            1 => fl::flatten(&cddl_cat::parse_cddl(text)?)?,
            2 => fl::slice_flatten(&pa::slice_parse_cddl(text)?)?.into_iter().map(|(n, (d, _))| (n, d)).collect(),
            _ => fl::flatten_from_str(text)?.iter().map(|(n, d)| (n.clone(), d.clone())).collect(),
        })
    });
    match r {
        Err(m) => Err(Y::P(m)),
        Ok(Err(e)) => Err(class(Err(e))),
        Ok(Ok(rules)) => Ok(BasicContext::new(rules)),
    }
}

pub fn ctx_cbor(rule: &str, ctx: &dyn LookupContext, v: &V) -> Y {
    let c = v.to_ciborium();
    y(guard(|| {
        let r = ctx.lookup_rule(rule)?;
        cddl_cat::validate_cbor(r, &c, ctx)
    }))
}

pub fn ctx_json(rule: &str, ctx: &dyn LookupContext, v: &V) -> Y {
    let j = v.to_serde_json();
    y(guard(|| {
        let r = ctx.lookup_rule(rule)?;
        cddl_cat::validate_json(r, &j, ctx)
    }))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Path {
    CborBytes,
    CborCtx,
    JsonStr,
    JsonCtx,
}

impl Path {
    pub fn pick(s: &mut crate::src::Src, v: &V) -> Path {
        if v.json_ok() {
            [Path::CborBytes, Path::JsonStr, Path::CborCtx, Path::JsonCtx][s.us(4)]
        } else {
            [Path::CborBytes, Path::CborCtx][s.us(2)]
        }
    }
}

pub fn run(p: Path, rule: &str, text: &str, v: &V) -> Y {
    match p {
        Path::CborBytes => cbor_bytes(rule, text, &v.cbor()),
        Path::JsonStr => json_str(rule, text, &v.json()),
        Path::CborCtx => match context(text) {
            Ok(c) => ctx_cbor(rule, &c, v),
            Err(e) => e,
        },
        Path::JsonCtx => match context(text) {
            Ok(c) => ctx_json(rule, &c, v),
            Err(e) => e,
        },
    }
}

/// The text of an error.
pub fn message(p: Path, rule: &str, text: &str, v: &V) -> Result<Option<(Y, String)>, String> {
    let r = guard(|| match p {
        Path::CborBytes => cddl_cat::validate_cbor_bytes(rule, text, &v.cbor()),
        Path::JsonStr => cddl_cat::validate_json_str(rule, text, &v.json()),
        Path::CborCtx => {
            let ctx = BasicContext::new(cddl_cat::flatten::flatten_from_str(text)?);
            cddl_cat::validate_cbor(ctx.lookup_rule(rule)?, &v.to_ciborium(), &ctx)
        }
        Path::JsonCtx => {
            let ctx = BasicContext::new(cddl_cat::flatten::flatten_from_str(text)?);
            cddl_cat::validate_json(ctx.lookup_rule(rule)?, &v.to_serde_json(), &ctx)
        }
    })?;
    Ok(match r {
        Ok(()) => None,
        Err(e) => {
            let m = guard(|| e.to_string())?;
            Some((class(Err(e)), m))
        }
    })
}
