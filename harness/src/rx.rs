//! A small regular-expression matcher of the harness's own (backtracking over
//! a parsed tree, unanchored search), for the subset the generators write.

#[derive(Clone, Debug)]
pub enum Rx {
    Lit(char),
    Any,
    Class(bool, Vec<(char, char)>),
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    Rep(Box<Rx>, usize, usize),
    Start,
    End,
    Ci(Box<Rx>),
    /// `.` matches line ends too.
    Dot(Box<Rx>),
    /// `^` and `$` match at line ends.
    Multi(Box<Rx>),
    /// A reluctant repetition: the same texts match.
    Lazy(Box<Rx>),
    /// A capture group, named or not.
    Group(bool, Box<Rx>),
    /// \d \w \s and their complements.
    Perl(char),
    /// \b, \B
    Bound(bool),
    /// A character written as a number.
    Hex(char),
}

const CI: u8 = 1;
const DOT: u8 = 2;
const MULTI: u8 = 4;

/// Some(answer), or None where the tables of characters would be needed.
fn perl(k: char, c: char) -> Option<bool> {
    let hit = match k.to_ascii_lowercase() {
        // (decimal digits of other scripts, and numbers that are no digits)
        'd' if "٣७３".contains(c) => true,
        'd' if "½²Ⅷ一".contains(c) => false,
        'd' if !c.is_ascii() && c.is_numeric() => return None,
        'd' => c.is_ascii_digit(),
        's' => c.is_whitespace(),
        _ if c.is_ascii() => c.is_ascii_alphanumeric() || c == '_',
        _ if c.is_alphabetic() || "٣७３".contains(c) => true,
        _ if "½²".contains(c) => false,
        _ if "🦀\u{85}\u{a0}\u{2028}\u{feff}".contains(c) => false,
        _ => return None,
    };
    Some(hit != k.is_ascii_uppercase())
}

fn class_char(c: char, o: &mut String) {
    if "]\\^-&~[".contains(c) {
        o.push('\\');
    }
    o.push(c);
}

pub fn render(r: &Rx, o: &mut String) {
    match r {
        Rx::Lit(c) => {
            if "\\.+*?()|[]{}^$".contains(*c) {
                o.push('\\');
            }
            o.push(*c);
        }
        Rx::Any => o.push('.'),
        Rx::Class(neg, rs) => {
            o.push('[');
            if *neg {
                o.push('^');
            }
            for (a, b) in rs {
                class_char(*a, o);
                if a != b {
                    o.push('-');
                    class_char(*b, o);
                }
            }
            o.push(']');
        }
        Rx::Cat(v) => v.iter().for_each(|x| match x {
            Rx::Alt(_) => {
                o.push('(');
                render(x, o);
                o.push(')');
            }
            _ => render(x, o),
        }),
        Rx::Alt(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                render(x, o);
            }
        }
        Rx::Rep(x, lo, hi) => {
            let simple = matches!(**x, Rx::Lit(_) | Rx::Any | Rx::Class(..) | Rx::Perl(_) | Rx::Hex(_) | Rx::Group(..));
            if !simple {
                o.push_str("(?:");
            }
            render(x, o);
            if !simple {
                o.push(')');
            }
            match (*lo, *hi) {
                (0, usize::MAX) => o.push('*'),
                (1, usize::MAX) => o.push('+'),
                (0, 1) => o.push('?'),
                (a, usize::MAX) => o.push_str(&format!("{{{},}}", a)),
                (a, b) if a == b => o.push_str(&format!("{{{}}}", a)),
                (a, b) => o.push_str(&format!("{{{},{}}}", a, b)),
            }
        }
        Rx::Start => o.push('^'),
        Rx::End => o.push('$'),
        Rx::Ci(x) => {
            o.push_str("(?i:");
            render(x, o);
            o.push(')');
        }
        Rx::Dot(x) => {
            o.push_str("(?s:");
            render(x, o);
            o.push(')');
        }
        Rx::Multi(x) => {
            o.push_str("(?m:");
            render(x, o);
            o.push(')');
        }
        Rx::Lazy(x) => {
            render(x, o);
            if matches!(**x, Rx::Rep(..)) {
                o.push('?');
            }
        }
        Rx::Group(named, x) => {
            if *named {
                let n = o.matches("(?P<").count();
                o.push_str(&format!("(?P<n{}>", n));
            } else {
                o.push('(');
            }
            render(x, o);
            o.push(')');
        }
        Rx::Perl(c) => {
            o.push('\\');
            o.push(*c);
        }
        Rx::Bound(b) => o.push_str(if *b { "\\b" } else { "\\B" }),
        Rx::Hex(c) => match *c as u32 {
            n @ 0..=0xff => o.push_str(&format!("\\x{:02x}", n)),
            n => o.push_str(&format!("\\u{{{:X}}}", n)),
        },
    }
}

/// None: gave up (too many steps).
pub fn search(r: &Rx, text: &str) -> Option<bool> {
    let cs: Vec<char> = text.chars().collect();
    let mut fuel = 200_000usize;
    for st in 0..=cs.len() {
        let hit = m(r, &cs, st, 0, &mut fuel, &mut |_, _| true);
        if fuel == 0 {
            return None;
        }
        if hit {
            return Some(true);
        }
    }
    Some(false)
}

fn lc(c: char) -> char {
    c.to_ascii_lowercase()
}

fn m(r: &Rx, cs: &[char], p: usize, fl: u8, fuel: &mut usize, k: &mut dyn FnMut(usize, &mut usize) -> bool) -> bool {
    if *fuel == 0 {
        return false;
    }
    *fuel -= 1;
    let ci = fl & CI != 0;
    match r {
        Rx::Lit(c) | Rx::Hex(c) => p < cs.len() && (cs[p] == *c || (ci && lc(cs[p]) == lc(*c))) && k(p + 1, fuel),
        Rx::Any => p < cs.len() && (fl & DOT != 0 || cs[p] != '\n') && k(p + 1, fuel),
        Rx::Class(neg, rs) => {
            p < cs.len() && {
                let c = cs[p];
                let inside = |c: char| rs.iter().any(|(a, b)| *a <= c && c <= *b);
                let hit = inside(c) || (ci && (inside(c.to_ascii_lowercase()) || inside(c.to_ascii_uppercase())));
                hit != *neg && k(p + 1, fuel)
            }
        }
        Rx::Cat(v) => cat(v, cs, p, fl, fuel, k),
        Rx::Alt(v) => v.iter().any(|x| m(x, cs, p, fl, fuel, k)),
        Rx::Rep(x, lo, hi) => rep(x, *lo, *hi, cs, p, fl, fuel, k),
        Rx::Start => (p == 0 || (fl & MULTI != 0 && cs[p - 1] == '\n')) && k(p, fuel),
        Rx::End => (p == cs.len() || (fl & MULTI != 0 && cs[p] == '\n')) && k(p, fuel),
        Rx::Ci(x) => m(x, cs, p, fl | CI, fuel, k),
        Rx::Dot(x) => m(x, cs, p, fl | DOT, fuel, k),
        Rx::Multi(x) => m(x, cs, p, fl | MULTI, fuel, k),
        Rx::Lazy(x) | Rx::Group(_, x) => m(x, cs, p, fl, fuel, k),
        Rx::Perl(c) => {
            p < cs.len()
                && match perl(*c, cs[p]) {
                    None => {
                        *fuel = 0;
                        false
                    }
                    Some(hit) => hit && k(p + 1, fuel),
                }
        }
        Rx::Bound(want) => {
            let side = |i: Option<usize>| match i.and_then(|i| cs.get(i)) {
                None => Some(false),
                Some(c) => perl('w', *c),
            };
            match (side(p.checked_sub(1)), side(Some(p))) {
                (Some(a), Some(b)) => ((a != b) == *want) && k(p, fuel),
                _ => {
                    *fuel = 0;
                    false
                }
            }
        }
    }
}

fn cat(v: &[Rx], cs: &[char], p: usize, fl: u8, fuel: &mut usize, k: &mut dyn FnMut(usize, &mut usize) -> bool) -> bool {
    match v.split_first() {
        None => k(p, fuel),
        Some((a, rest)) => m(a, cs, p, fl, fuel, &mut |q, f| cat(rest, cs, q, fl, f, k)),
    }
}

#[allow(clippy::too_many_arguments)]
fn rep(
    x: &Rx,
    lo: usize,
    hi: usize,
    cs: &[char],
    p: usize,
    fl: u8,
    fuel: &mut usize,
    k: &mut dyn FnMut(usize, &mut usize) -> bool,
) -> bool {
    if lo == 0 && k(p, fuel) {
        return true;
    }
    if hi == 0 || *fuel == 0 {
        return false;
    }
    m(x, cs, p, fl, fuel, &mut |q, f| {
        if q == p && lo == 0 {
            return false;
        }
        let nhi = if hi == usize::MAX { hi } else { hi - 1 };
        rep(x, lo.saturating_sub(1), nhi, cs, q, fl, f, k)
    })
}

/// Parse a pattern written by `render` (used by the reference model, which
/// sees the pattern only as schema text).
pub fn parse(p: &str) -> Option<Rx> {
    let cs: Vec<char> = p.chars().collect();
    let mut i = 0;
    let r = p_alt(&cs, &mut i)?;
    if i == cs.len() {
        Some(r)
    } else {
        None
    }
}

fn p_alt(cs: &[char], i: &mut usize) -> Option<Rx> {
    let mut alts = vec![p_cat(cs, i)?];
    while cs.get(*i) == Some(&'|') {
        *i += 1;
        alts.push(p_cat(cs, i)?);
    }
    Some(if alts.len() == 1 { alts.pop().unwrap() } else { Rx::Alt(alts) })
}

fn p_cat(cs: &[char], i: &mut usize) -> Option<Rx> {
    let mut v = Vec::new();
    while *i < cs.len() && cs[*i] != '|' && cs[*i] != ')' {
        let c = cs[*i];
        *i += 1;
        let atom = match c {
            '\\' => {
                let e = *cs.get(*i)?;
                *i += 1;
                let hex = |i: &mut usize, a: usize, b: usize, more: usize| {
                    let h: String = cs.get(a..b)?.iter().collect();
                    *i = b + more;
                    char::from_u32(u32::from_str_radix(&h, 16).ok()?).map(Rx::Hex)
                };
                match e {
                    'd' | 'D' | 'w' | 'W' | 's' | 'S' => Rx::Perl(e),
                    'b' | 'B' if cs.get(*i) != Some(&'{') => Rx::Bound(e == 'b'),
                    'x' if cs.get(*i) != Some(&'{') => {
                        let a = *i;
                        hex(i, a, a + 2, 0)?
                    }
                    'u' if cs.get(*i) == Some(&'{') => {
                        let a = *i + 1;
                        let end = (a..cs.len()).find(|j| cs[*j] == '}')?;
                        hex(i, a, end, 1)?
                    }
                    _ if e.is_ascii_alphanumeric() => return None,
                    e => Rx::Lit(e),
                }
            }
            '.' => Rx::Any,
            '^' => Rx::Start,
            '$' => Rx::End,
            '(' => {
                let mut kind = ' ';
                if cs.get(*i) == Some(&'?') {
                    match (cs.get(*i + 1)?, cs.get(*i + 2)) {
                        (':', _) => *i += 2,
                        (k @ ('i' | 's' | 'm'), Some(':')) => {
                            kind = *k;
                            *i += 3;
                        }
                        ('P', Some('<')) => *i = (*i..cs.len()).find(|j| cs[*j] == '>')? + 1,
                        _ => return None,
                    }
                }
                let r = p_alt(cs, i)?;
                if cs.get(*i) != Some(&')') {
                    return None;
                }
                *i += 1;
                match kind {
                    'i' => Rx::Ci(Box::new(r)),
                    's' => Rx::Dot(Box::new(r)),
                    'm' => Rx::Multi(Box::new(r)),
                    _ => r,
                }
            }
            '[' => {
                let neg = cs.get(*i) == Some(&'^');
                if neg {
                    *i += 1;
                }
                let mut rs = Vec::new();
                loop {
                    let mut a = *cs.get(*i)?;
                    *i += 1;
                    if a == ']' {
                        break;
                    }
                    if a == '\\' {
                        a = *cs.get(*i)?;
                        *i += 1;
                        if a.is_ascii_alphanumeric() {
                            return None;
                        }
                    }
                    if cs.get(*i) == Some(&'-') {
                        let mut b = *cs.get(*i + 1)?;
                        *i += 2;
                        if b == '\\' {
                            b = *cs.get(*i)?;
                            *i += 1;
                            if b.is_ascii_alphanumeric() {
                                return None;
                            }
                        }
                        rs.push((a, b));
                    } else {
                        rs.push((a, a));
                    }
                }
                Rx::Class(neg, rs)
            }
            '*' | '+' | '?' | '{' => return None,
            c => Rx::Lit(c),
        };
        let (lo, hi) = match cs.get(*i) {
            Some('*') => (0, usize::MAX),
            Some('+') => (1, usize::MAX),
            Some('?') => (0, 1),
            Some('{') => {
                let end = (*i..cs.len()).find(|j| cs[*j] == '}')?;
                let body: String = cs[*i + 1..end].iter().collect();
                *i = end;
                match body.split_once(',') {
                    None => {
                        let n = body.parse().ok()?;
                        (n, n)
                    }
                    Some((a, "")) => (a.parse().ok()?, usize::MAX),
                    Some((a, b)) => (a.parse().ok()?, b.parse().ok()?),
                }
            }
            _ => {
                v.push(atom);
                continue;
            }
        };
        *i += 1;
        if cs.get(*i) == Some(&'?') {
            *i += 1;
        }
        v.push(Rx::Rep(Box::new(atom), lo, hi));
    }
    Some(if v.len() == 1 { v.pop().unwrap() } else { Rx::Cat(v) })
}
