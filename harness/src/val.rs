//! The harness's own data model, with its own CBOR and JSON encoders and its
//! own CBOR decoder (used by the reference model for `.cbor`).

use crate::src::Src;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Bytes(Vec<u8>),
    Text(String),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Float(a), V::Float(b)) => a.to_bits() == b.to_bits(),
            (V::Bytes(a), V::Bytes(b)) => a == b,
            (V::Text(a), V::Text(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a == b,
            (V::Map(a), V::Map(b)) => {
                a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k == k2 && v == v2))
            }
            _ => false,
        }
    }
}

pub fn json_float_exact(f: f64, text: &str) -> bool {
    serde_json::from_str::<f64>(text).is_ok_and(|g| g.to_bits() == f.to_bits())
}

pub fn t(s: &str) -> V {
    V::Text(s.to_string())
}

impl V {
    pub fn size(&self) -> usize {
        match self {
            V::Arr(a) => 1 + a.iter().map(|x| x.size()).sum::<usize>(),
            V::Map(m) => 1 + m.iter().map(|(k, v)| k.size() + v.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            V::Arr(a) => 1 + a.iter().map(|x| x.depth()).max().unwrap_or(0),
            V::Map(m) => 1 + m.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Can this value be written in JSON so that it reads back as itself?
    pub fn json_ok(&self) -> bool {
        match self {
            V::Null | V::Bool(_) | V::Text(_) => true,
            V::Int(i) => *i >= i64::MIN as i128 && *i <= u64::MAX as i128,
            // serde_json (without float_roundtrip) reads some floats one unit
            // in the last place off; those are left out
            V::Float(f) => f.is_finite() && json_float_exact(*f, &format!("{:?}", f)),
            V::Bytes(_) => false,
            V::Arr(a) => a.iter().all(|x| x.json_ok()),
            V::Map(m) => m.iter().all(|(k, v)| matches!(k, V::Text(_)) && v.json_ok()),
        }
    }
    /// Within what CBOR can carry without tags.
    pub fn cbor_ok(&self) -> bool {
        match self {
            V::Int(i) => *i >= -(1i128 << 64) && *i < (1i128 << 64),
            V::Arr(a) => a.iter().all(|x| x.cbor_ok()),
            V::Map(m) => m.iter().all(|(k, v)| k.cbor_ok() && v.cbor_ok()),
            _ => true,
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, o: &mut String) {
        match self {
            V::Null => o.push_str("null"),
            V::Bool(b) => write!(o, "{}", b).unwrap(),
            V::Int(i) => write!(o, "{}", i).unwrap(),
            V::Float(f) => write!(o, "{:?}", f).unwrap(),
            V::Bytes(b) => {
                o.push_str("h'");
                for x in b.iter().take(64) {
                    write!(o, "{:02x}", x).unwrap();
                }
                if b.len() > 64 {
                    write!(o, "...{}", b.len()).unwrap();
                }
                o.push('\'');
            }
            V::Text(s) => {
                if s.len() > 100 {
                    write!(o, "{:?}...{}", s.chars().take(40).collect::<String>(), s.len()).unwrap()
                } else {
                    write!(o, "{:?}", s).unwrap()
                }
            }
            V::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.show_into(o);
                }
                o.push(']');
            }
            V::Map(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    k.show_into(o);
                    o.push_str(": ");
                    v.show_into(o);
                }
                o.push('}');
            }
        }
    }
    /// The value the code under test should make of this one.
    pub fn to_cat(&self) -> cddl_cat::value::Value {
        use cddl_cat::value::Value as C;
        match self {
            V::Null => C::Null,
            V::Bool(b) => C::Bool(*b),
            V::Int(i) => C::Integer(*i),
            V::Float(f) => C::Float(float_ord::FloatOrd(*f)),
            V::Bytes(b) => C::Bytes(b.clone()),
            V::Text(s) => C::Text(s.clone()),
            V::Arr(a) => C::Array(a.iter().map(|x| x.to_cat()).collect()),
            V::Map(m) => C::Map(m.iter().map(|(k, v)| (k.to_cat(), v.to_cat())).collect()),
        }
    }
    pub fn to_ciborium(&self) -> ciborium::Value {
        use ciborium::Value as C;
        match self {
            V::Null => C::Null,
            V::Bool(b) => C::Bool(*b),
            V::Int(i) => C::Integer(ciborium::value::Integer::try_from(*i).expect("int range")),
            V::Float(f) => C::Float(*f),
            V::Bytes(b) => C::Bytes(b.clone()),
            V::Text(s) => C::Text(s.clone()),
            V::Arr(a) => C::Array(a.iter().map(|x| x.to_ciborium()).collect()),
            V::Map(m) => C::Map(m.iter().map(|(k, v)| (k.to_ciborium(), v.to_ciborium())).collect()),
        }
    }
    pub fn to_serde_json(&self) -> serde_json::Value {
        use serde_json::Value as J;
        match self {
            V::Null => J::Null,
            V::Bool(b) => J::Bool(*b),
            V::Int(i) => {
                if *i < 0 {
                    J::from(i64::try_from(*i).unwrap())
                } else {
                    J::from(u64::try_from(*i).unwrap())
                }
            }
            V::Float(f) => J::from(*f),
            V::Text(s) => J::String(s.clone()),
            V::Arr(a) => J::Array(a.iter().map(|x| x.to_serde_json()).collect()),
            V::Map(m) => J::Object(
                m.iter()
                    .map(|(k, v)| match k {
                        V::Text(s) => (s.clone(), v.to_serde_json()),
                        _ => panic!("not json"),
                    })
                    .collect(),
            ),
            V::Bytes(_) => panic!("not json"),
        }
    }
    pub fn cbor(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.cbor_into(&mut o, &mut None);
        o
    }
    /// Any valid encoding of the same data: non-minimal heads, indefinite
    /// lengths, chunked strings, shorter floats, permuted map entries.
    pub fn cbor_alt(&self, s: &mut Src) -> Vec<u8> {
        let mut o = Vec::new();
        self.cbor_into(&mut o, &mut Some(s));
        o
    }
    fn cbor_into(&self, o: &mut Vec<u8>, alt: &mut Option<&mut Src>) {
        match self {
            V::Null => o.push(0xf6),
            V::Bool(false) => o.push(0xf4),
            V::Bool(true) => o.push(0xf5),
            V::Int(i) => {
                if *i >= 0 {
                    head(o, 0, u64::try_from(*i).expect("int range"), alt)
                } else {
                    head(o, 1, u64::try_from(-1 - *i).expect("int range"), alt)
                }
            }
            V::Float(f) => enc_float(o, *f, alt),
            V::Bytes(b) => {
                if alt.as_mut().is_some_and(|s| s.pct(25)) {
                    o.push(0x5f);
                    let s = alt.as_mut().unwrap();
                    let cuts = s.us(4);
                    let mut rest: &[u8] = b;
                    for _ in 0..cuts {
                        let n = alt.as_mut().unwrap().us(rest.len() + 1);
                        head(o, 2, n as u64, alt);
                        o.extend_from_slice(&rest[..n]);
                        rest = &rest[n..];
                    }
                    if !rest.is_empty() {
                        head(o, 2, rest.len() as u64, alt);
                        o.extend_from_slice(rest);
                    }
                    o.push(0xff);
                } else {
                    head(o, 2, b.len() as u64, alt);
                    o.extend_from_slice(b);
                }
            }
            V::Text(b) => {
                if alt.as_mut().is_some_and(|s| s.pct(25)) {
                    o.push(0x7f);
                    let s = alt.as_mut().unwrap();
                    let cuts = s.us(4);
                    let mut rest: &str = b;
                    for _ in 0..cuts {
                        let mut n = alt.as_mut().unwrap().us(rest.len() + 1);
                        while !rest.is_char_boundary(n) {
                            n -= 1;
                        }
                        head(o, 3, n as u64, alt);
                        o.extend_from_slice(rest[..n].as_bytes());
                        rest = &rest[n..];
                    }
                    if !rest.is_empty() {
                        head(o, 3, rest.len() as u64, alt);
                        o.extend_from_slice(rest.as_bytes());
                    }
                    o.push(0xff);
                } else {
                    head(o, 3, b.len() as u64, alt);
                    o.extend_from_slice(b.as_bytes());
                }
            }
            V::Arr(a) => {
                let indef = alt.as_mut().is_some_and(|s| s.pct(30));
                if indef {
                    o.push(0x9f);
                } else {
                    head(o, 4, a.len() as u64, alt);
                }
                for x in a {
                    x.cbor_into(o, alt);
                }
                if indef {
                    o.push(0xff);
                }
            }
            V::Map(m) => {
                let indef = alt.as_mut().is_some_and(|s| s.pct(30));
                if indef {
                    o.push(0xbf);
                } else {
                    head(o, 5, m.len() as u64, alt);
                }
                let order: Vec<usize> = match alt {
                    Some(s) => s.perm(m.len()),
                    None => (0..m.len()).collect(),
                };
                for i in order {
                    m[i].0.cbor_into(o, alt);
                    m[i].1.cbor_into(o, alt);
                }
                if indef {
                    o.push(0xff);
                }
            }
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::new();
        self.json_into(&mut o, &mut None);
        o
    }
    /// Any JSON text for the same data: whitespace, escapes, member order,
    /// exponent notation for floats.
    pub fn json_alt(&self, s: &mut Src) -> String {
        let mut o = String::new();
        self.json_into(&mut o, &mut Some(s));
        o
    }
    fn json_into(&self, o: &mut String, alt: &mut Option<&mut Src>) {
        jws(o, alt);
        match self {
            V::Null => o.push_str("null"),
            V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            V::Int(i) => write!(o, "{}", i).unwrap(),
            V::Float(f) => {
                let style = alt.as_mut().map_or(0, |s| s.us(3));
                let x = match style {
                    0 => format!("{:?}", f),
                    1 => format!("{:e}", f),
                    _ => format!("{:E}", f),
                };
                // an exponent makes it a float even without a fraction
                if json_float_exact(*f, &x) {
                    o.push_str(&x);
                } else {
                    write!(o, "{:?}", f).unwrap();
                }
            }
            V::Text(t) => json_str(o, t, alt),
            V::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.json_into(o, alt);
                }
                if a.is_empty() {
                    jws(o, alt);
                }
                o.push(']');
            }
            V::Map(m) => {
                o.push('{');
                let order: Vec<usize> = match alt {
                    Some(s) => s.perm(m.len()),
                    None => (0..m.len()).collect(),
                };
                for (n, i) in order.into_iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    jws(o, alt);
                    match &m[i].0 {
                        V::Text(k) => json_str(o, k, alt),
                        _ => panic!("not json"),
                    }
                    jws(o, alt);
                    o.push(':');
                    m[i].1.json_into(o, alt);
                }
                o.push('}');
            }
            V::Bytes(_) => panic!("not json"),
        }
        jws(o, alt);
    }
}

fn jws(o: &mut String, alt: &mut Option<&mut Src>) {
    if let Some(s) = alt {
        if s.pct(20) {
            for _ in 0..=s.us(3) {
                o.push(*s.pick(&[' ', '\n', '\t', '\r']));
            }
        }
    }
}

fn json_str(o: &mut String, t: &str, alt: &mut Option<&mut Src>) {
    o.push('"');
    for c in t.chars() {
        let esc = alt.as_mut().is_some_and(|s| s.pct(10));
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if !esc => o.push_str("\\n"),
            '\t' if !esc => o.push_str("\\t"),
            '/' if esc => o.push_str("\\/"),
            c if (c as u32) < 0x20 || esc => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn head(o: &mut Vec<u8>, major: u8, n: u64, alt: &mut Option<&mut Src>) {
    let min = if n < 24 {
        0
    } else if n < 1 << 8 {
        1
    } else if n < 1 << 16 {
        2
    } else if n < 1 << 32 {
        3
    } else {
        4
    };
    let mut w = min;
    if let Some(s) = alt {
        if s.pct(20) {
            w = min + s.us(5 - min);
        }
    }
    let m = major << 5;
    match w {
        0 => o.push(m | n as u8),
        1 => {
            o.push(m | 24);
            o.push(n as u8)
        }
        2 => {
            o.push(m | 25);
            o.extend_from_slice(&(n as u16).to_be_bytes())
        }
        3 => {
            o.push(m | 26);
            o.extend_from_slice(&(n as u32).to_be_bytes())
        }
        _ => {
            o.push(m | 27);
            o.extend_from_slice(&n.to_be_bytes())
        }
    }
}

pub fn f16_to_f64(h: u16) -> f64 {
    let sign = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let exp = ((h >> 10) & 0x1f) as i32;
    let man = (h & 0x3ff) as f64;
    sign * if exp == 0 {
        man * 2f64.powi(-24)
    } else if exp == 31 {
        if man == 0.0 {
            f64::INFINITY
        } else {
            f64::NAN
        }
    } else {
        (1.0 + man / 1024.0) * 2f64.powi(exp - 15)
    }
}

fn f64_to_f16_exact(f: f64) -> Option<u16> {
    if f.is_nan() {
        return None;
    }
    let sign: u16 = if f.is_sign_negative() { 0x8000 } else { 0 };
    let a = f.abs();
    if a == 0.0 {
        return Some(sign);
    }
    if a.is_infinite() {
        return Some(sign | 0x7c00);
    }
    for e in 0..31u16 {
        let scale = if e == 0 { 2f64.powi(-24) } else { 2f64.powi(e as i32 - 25) };
        let m = a / scale;
        let (lo, hi) = if e == 0 { (0.0, 1024.0) } else { (1024.0, 2048.0) };
        if m >= lo && m < hi && m.fract() == 0.0 {
            let man = (m as u32 & 0x3ff) as u16;
            return Some(sign | (e << 10) | man);
        }
    }
    None
}

fn enc_float(o: &mut Vec<u8>, f: f64, alt: &mut Option<&mut Src>) {
    if let Some(s) = alt {
        let w = s.us(3);
        if w >= 1 {
            if w == 2 {
                if let Some(h) = f64_to_f16_exact(f) {
                    o.push(0xf9);
                    o.extend_from_slice(&h.to_be_bytes());
                    return;
                }
            }
            let g = f as f32;
            if g as f64 == f {
                o.push(0xfa);
                o.extend_from_slice(&g.to_be_bytes());
                return;
            }
        }
    }
    o.push(0xfb);
    o.extend_from_slice(&f.to_be_bytes());
}

/// Decode exactly one well-formed CBOR item. `Err(true)`: not well-formed (or
/// trailing bytes); `Err(false)`: well-formed but outside the data model
/// (tags, undefined, other simple values, duplicate keys, too deep).
pub fn decode_cbor(b: &[u8]) -> Result<V, bool> {
    let mut p = 0;
    let v = dec(b, &mut p, 0)?;
    if p == b.len() {
        Ok(v)
    } else {
        Err(true)
    }
}

fn dec(b: &[u8], p: &mut usize, depth: usize) -> Result<V, bool> {
    if depth > 60 {
        return Err(false);
    }
    let ib = *b.get(*p).ok_or(true)?;
    *p += 1;
    let (maj, ai) = (ib >> 5, ib & 31);
    if maj == 7 {
        return match ai {
            20 => Ok(V::Bool(false)),
            21 => Ok(V::Bool(true)),
            22 => Ok(V::Null),
            25 => {
                let x = take(b, p, 2)?;
                Ok(V::Float(f16_to_f64(u16::from_be_bytes([x[0], x[1]]))))
            }
            26 => {
                let x = take(b, p, 4)?;
                Ok(V::Float(f32::from_be_bytes(x.try_into().unwrap()) as f64))
            }
            27 => {
                let x = take(b, p, 8)?;
                Ok(V::Float(f64::from_be_bytes(x.try_into().unwrap())))
            }
            31 | 28..=30 => Err(true),
            _ => Err(false),
        };
    }
    if ai == 31 {
        match maj {
            2 | 3 => {
                let mut acc = Vec::new();
                loop {
                    let c = *b.get(*p).ok_or(true)?;
                    if c == 0xff {
                        *p += 1;
                        break;
                    }
                    if c >> 5 == maj && c & 31 == 31 {
                        // nested chunks: not allowed, yet ciborium reads them
                        return Err(false);
                    }
                    if c >> 5 != maj {
                        return Err(true);
                    }
                    *p += 1;
                    let n = arg(b, p, c & 31)?;
                    let x = take(b, p, usize::try_from(n).map_err(|_| true)?)?;
                    if maj == 3 && std::str::from_utf8(x).is_err() {
                        // a character split between chunks: decoders differ
                        return Err(false);
                    }
                    acc.extend_from_slice(x);
                }
                return if maj == 2 { Ok(V::Bytes(acc)) } else { String::from_utf8(acc).map(V::Text).map_err(|_| true) };
            }
            4 => {
                let mut a = Vec::new();
                loop {
                    if *b.get(*p).ok_or(true)? == 0xff {
                        *p += 1;
                        return Ok(V::Arr(a));
                    }
                    a.push(dec(b, p, depth + 1)?);
                }
            }
            5 => {
                let mut a: Vec<(V, V)> = Vec::new();
                loop {
                    if *b.get(*p).ok_or(true)? == 0xff {
                        *p += 1;
                        return Ok(V::Map(a));
                    }
                    let k = dec(b, p, depth + 1)?;
                    let v = dec(b, p, depth + 1)?;
                    if a.iter().any(|(k2, _)| *k2 == k) {
                        return Err(false);
                    }
                    a.push((k, v));
                }
            }
            _ => return Err(true),
        }
    }
    let n = arg(b, p, ai)?;
    match maj {
        0 => Ok(V::Int(n as i128)),
        1 => Ok(V::Int(-1 - n as i128)),
        2 => Ok(V::Bytes(take(b, p, usize::try_from(n).map_err(|_| true)?)?.to_vec())),
        3 => {
            let x = take(b, p, usize::try_from(n).map_err(|_| true)?)?;
            String::from_utf8(x.to_vec()).map(V::Text).map_err(|_| true)
        }
        4 => {
            let mut a = Vec::new();
            for _ in 0..n {
                a.push(dec(b, p, depth + 1)?);
            }
            Ok(V::Arr(a))
        }
        5 => {
            let mut a: Vec<(V, V)> = Vec::new();
            for _ in 0..n {
                let k = dec(b, p, depth + 1)?;
                let v = dec(b, p, depth + 1)?;
                if a.iter().any(|(k2, _)| *k2 == k) {
                    return Err(false);
                }
                a.push((k, v));
            }
            Ok(V::Map(a))
        }
        _ => Err(false),
    }
}

fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> Result<&'a [u8], bool> {
    let e = p.checked_add(n).ok_or(true)?;
    let r = b.get(*p..e).ok_or(true)?;
    *p = e;
    Ok(r)
}

fn arg(b: &[u8], p: &mut usize, ai: u8) -> Result<u64, bool> {
    let mut n = 0u64;
    let w = match ai {
        0..=23 => return Ok(ai as u64),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => return Err(true),
    };
    for x in take(b, p, w)? {
        n = (n << 8) | *x as u64;
    }
    Ok(n)
}

// ---------------------------------------------------------------- generators

/// Integers with weight on the places where something changes.
pub fn gen_int(s: &mut Src) -> i128 {
    let x = match s.weighted(&[50, 15, 15, 10, 10]) {
        0 => s.range(-6, 30) as i128 + if s.pct(10) { 0 } else { 0 },
        1 => {
            // around a power of two
            let e = s.us(65) as u32;
            (1i128 << e) + s.range(-2, 2) as i128
        }
        2 => {
            let e = s.us(65) as u32;
            -(1i128 << e) + s.range(-2, 2) as i128
        }
        3 => {
            let e = s.us(20) as u32;
            let m = 10i128.pow(e) + s.range(-1, 1) as i128;
            if s.bool() {
                -m
            } else {
                m
            }
        }
        _ => {
            let sh = s.us(64);
            let v = (s.u64() >> sh) as i128;
            if s.bool() {
                -1 - v
            } else {
                v
            }
        }
    };
    x.clamp(-(1i128 << 64), (1i128 << 64) - 1)
}

/// Integers a CDDL literal can express.
pub fn gen_lit_int(s: &mut Src) -> i128 {
    gen_int(s).max(i64::MIN as i128)
}

pub fn gen_float(s: &mut Src) -> f64 {
    let f = match s.weighted(&[40, 20, 20, 20]) {
        0 => s.range(-8, 40) as f64 / 4.0,
        1 => *s.pick(&[
            0.0,
            1.0,
            -1.0,
            0.1,
            1e10,
            1e16,
            1e21,
            1e-7,
            1e300,
            -1e300,
            5e-324,
            1.7976931348623157e308,
            9007199254740993.0,
            18446744073709551616.0,
            -9223372036854775808.0,
            65504.0,
            3.4028234663852886e38,
            100000.0,
            2.5,
        ]),
        2 => s.range(-1000, 1000) as f64,
        _ => f64::from_bits(s.u64()),
    };
    if !f.is_finite() {
        1.5
    } else if f == 0.0 {
        0.0
    } else {
        f
    }
}

const CHARS: &[char] = &[
    'a', 'b', 'c', 'A', 'z', '0', '1', '9', ' ', '-', '_', '.', '/', ':', '"', '\\', '\'', '{', '}', '[', ']', '(', ')', ';',
    ',', '#', '\n', '\t', '\r', '\u{0}', '\u{1f}', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '漢', '\u{d7ff}',
    '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '🦀', '\u{1f600}', '\u{10ffd}', '\u{10ffe}', '\u{ffffd}',
    '\u{10fffd}', '\u{10fffe}', '\u{10ffff}', '\u{feff}', '\u{200b}', '\u{2028}', '\u{85}', '\u{a0}', '\u{301}', '\u{3000}', '\u{b}', '\u{c}',
    'İ', 'ǆ', '%', '$', '@', '<', '>', '=', '?', '*', '+', '&', '~', '^', '|', '`', '!', '\u{1b}', '\u{200d}', '\u{202e}',
];

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[60, 30, 10]) {
        0 => (b'a' + s.us(26) as u8) as char,
        1 => *s.pick(CHARS),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('x'),
    }
}

pub fn gen_text(s: &mut Src) -> String {
    let n = s.size(300);
    if n > 24 {
        // long strings: repeat a few characters, to save input bytes
        let a = gen_char(s);
        let b = gen_char(s);
        return (0..n).map(|i| if i % 7 == 6 { b } else { a }).collect();
    }
    (0..n).map(|_| gen_char(s)).collect()
}

pub fn gen_bytes(s: &mut Src) -> Vec<u8> {
    let n = s.size(300);
    if n > 24 {
        let a = s.byte();
        return (0..n).map(|i| a.wrapping_add(i as u8)).collect();
    }
    (0..n).map(|_| s.byte()).collect()
}

pub fn gen_scalar(s: &mut Src) -> V {
    match s.weighted(&[30, 20, 15, 10, 10, 5]) {
        0 => V::Int(gen_int(s)),
        1 => V::Text(gen_text(s)),
        2 => V::Float(gen_float(s)),
        3 => V::Bool(s.bool()),
        4 => V::Bytes(gen_bytes(s)),
        _ => V::Null,
    }
}

/// Small scalars, so that different parts of a case often collide.
pub fn gen_small(s: &mut Src) -> V {
    match s.weighted(&[40, 30, 8, 8, 5, 4]) {
        0 => V::Int(s.range(-2, 6) as i128),
        1 => t(*s.pick(&["a", "b", "c", "d", "x", ""])),
        2 => V::Bool(s.bool()),
        3 => V::Float(*s.pick(&[0.0, 1.0, 1.5, 2.0])),
        4 => V::Bytes(s.pick(&[&b""[..], b"a", b"\x01"]).to_vec()),
        _ => V::Null,
    }
}

pub fn gen_value(s: &mut Src, depth: usize) -> V {
    if depth == 0 || s.pct(50) {
        return if s.bool() { gen_scalar(s) } else { gen_small(s) };
    }
    if s.bool() {
        let n = s.size(20);
        V::Arr((0..n).map(|_| gen_value(s, depth - 1)).collect())
    } else {
        let n = s.size(12);
        let mut m: Vec<(V, V)> = Vec::new();
        for _ in 0..n {
            let k = if s.pct(75) { gen_small(s) } else { gen_value(s, depth - 1) };
            if !m.iter().any(|(k2, _)| *k2 == k) {
                let v = gen_value(s, depth - 1);
                m.push((k, v));
            }
        }
        V::Map(m)
    }
}

pub fn gen_json_value(s: &mut Src, depth: usize) -> V {
    if depth == 0 || s.pct(40) {
        let v = if s.bool() { gen_scalar(s) } else { gen_small(s) };
        return if v.json_ok() { v } else { V::Null };
    }
    if s.bool() {
        let n = s.size(20);
        V::Arr((0..n).map(|_| gen_json_value(s, depth - 1)).collect())
    } else {
        let n = s.size(12);
        let mut m: Vec<(V, V)> = Vec::new();
        for _ in 0..n {
            let k = if s.pct(75) { t(*s.pick(&["a", "b", "c", "d", "e", "", "x-y"])) } else { V::Text(gen_text(s)) };
            if !m.iter().any(|(k2, _)| *k2 == k) {
                let v = gen_json_value(s, depth - 1);
                m.push((k, v));
            }
        }
        V::Map(m)
    }
}
