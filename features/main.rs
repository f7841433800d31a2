// One line per case on stdin: `OP RULE SCHEMA DATA`, in hexadecimal (`-` for
// nothing); one line per answer on stdout.
use cddl_cat::ValidateError as E;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn word(r: Result<(), E>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(e) => match e {
            E::Mismatch(_) | E::MapCut(_) => "no",
            E::ParseError(_) => "Parse",
            E::Structural(_) => "Structural",
            E::MissingRule(_) => "MissingRule",
            E::Unsupported(_) => "Unsupported",
            E::ValueError(_) => "Value",
            E::GenericError => "Generic",
            _ => "Other",
        },
    }
}

fn answer(op: &str, _rule: &str, text: &str, _data: &[u8]) -> &'static str {
    match op {
        #[cfg(feature = "json")]
        "J" => word(cddl_cat::validate_json_str(_rule, text, std::str::from_utf8(_data).unwrap())),
        #[cfg(feature = "cbor")]
        "C" => word(cddl_cat::validate_cbor_bytes(_rule, text, _data)),
        "F" => word(cddl_cat::flatten::flatten_from_str(text).map(|_| ())),
        _ => "no such operation",
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let run = || {
        let out = std::io::stdout();
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let f: Vec<&str> = l.split(' ').collect();
            let (rule, text, data) = (unhex(f[1]), unhex(f[2]), unhex(f[3]));
            let (rule, text) = (String::from_utf8(rule).unwrap(), String::from_utf8(text).unwrap());
            let r = std::panic::catch_unwind(|| answer(f[0], &rule, &text, &data)).unwrap_or("panic");
            let mut o = out.lock();
            writeln!(o, "{}", r).unwrap();
            o.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap().join().unwrap();
}
