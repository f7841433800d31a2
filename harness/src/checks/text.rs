//! The schema text: layout, literals, structure, rejection, cost of parsing,
//! and the texts kept with rules.

use super::*;
use crate::api::K;
use crate::budget;
use crate::model::{lit_eq, PRELUDE, UNSUPPORTED};
use crate::val::*;
use cddl_cat::ast as A;

// -------------------------------------------------- random syntax trees

/// Random syntax: everything the grammar allows, meaningful or not.
pub struct Syn {
    left: u32,
}

const TAILS: &[&str] = &["a", "Z9", "0", "-x", ".y", "--q", ".-.7", "_", "@", "$", "-1", "b64", "e5", "..z", "-.a", "x--y", "---a", "...y", "-.-.-w", "-----9", ".--.@"];
const STARTS: &[&str] = &[
    "a", "b", "foo", "int", "h", "b64", "e5", "x", "true", "T", "_", "@", "$", "$$", "tstr", "null", "nil", "uint", "bstr",
    "E1", "B64", "H", "any", "o", "0",
];
const OPS: &[&str] = &[
    "size", "lt", "le", "gt", "ge", "regexp", "cbor", "eq", "ne", "within", "and", "bits", "default", "cborseq", "foo-bar",
    "x.y", "SIZE", "e5", "_", "a1",
];

pub fn ident(s: &mut Src) -> String {
    let mut n = STARTS[s.us(STARTS.len() - 1)].to_string();
    for _ in 0..s.weighted(&[55, 30, 10, 5]) {
        n.push_str(s.pick(TAILS));
    }
    n
}

pub fn lit(s: &mut Src) -> Lit {
    if s.pct(8) {
        // what would mean something outside of the quotes
        let x: String = (0..1 + s.us(3)).map(|_| *s.pick(&[";", ";;", ";;", "; c", " ;x = int", "//", "/", "=", " y = tstr ", "h'", "b64'", "(", ")", "[", "]", "{", "}", "<", ">", "&", "~", "^", "=>", ":", ",", "..", ".size", "\r\n", "\n", "\\", "'", "\"", "  "])).collect();
        return if s.bool() { Lit::Text(x) } else { Lit::Bytes(x.into_bytes()) };
    }
    match s.weighted(&[40, 25, 20, 15]) {
        0 => Lit::Int(gen_lit_int(s).min(u64::MAX as i128)),
        1 => Lit::Text(gen_text(s)),
        2 => Lit::Float(gen_float(s)),
        _ => Lit::Bytes(gen_bytes(s)),
    }
}

impl Syn {
    pub fn new(max: u32) -> Syn {
        Syn { left: max }
    }
    fn spend(&mut self) -> bool {
        self.left = self.left.saturating_sub(1);
        self.left == 0
    }
    fn args(&mut self, s: &mut Src, d: usize) -> Vec<T1> {
        if d == 0 || !s.pct(15) {
            return vec![];
        }
        (0..1 + s.us(3)).map(|_| self.t1(s, d - 1)).collect()
    }
    pub fn t2(&mut self, s: &mut Src, d: usize) -> T2 {
        if self.spend() || d == 0 || s.pct(45) {
            return if s.bool() { T2::Name(ident(s), vec![]) } else { T2::Lit(lit(s)) };
        }
        match s.us(8) {
            0 => T2::Name(ident(s), self.args(s, d)),
            1 => T2::Paren(self.ty(s, d - 1)),
            2 => T2::Map(self.group(s, d - 1)),
            3 | 4 => T2::Arr(self.group(s, d - 1)),
            5 => T2::Unwrap(ident(s), self.args(s, d)),
            6 => T2::Amp(ident(s), self.args(s, d)),
            _ => T2::AmpInline(self.group(s, d - 1)),
        }
    }
    pub fn t1(&mut self, s: &mut Src, d: usize) -> T1 {
        match s.weighted(&[70, 14, 16]) {
            0 => T1::S(self.t2(s, d)),
            1 => T1::Range(self.t2(s, d), s.bool(), self.t2(s, d)),
            _ => T1::Ctl(self.t2(s, d), s.pick(OPS).to_string(), self.t2(s, d)),
        }
    }
    pub fn ty(&mut self, s: &mut Src, d: usize) -> Type {
        let n = 1 + s.weighted(&[65, 22, 8, 5]);
        Type((0..n).map(|_| self.t1(s, d)).collect())
    }
    fn occ(&self, s: &mut Src) -> Option<Occ> {
        let n = |s: &mut Src| match s.us(4) {
            0 => s.us(3),
            1 => s.us(1000),
            2 => (gen_int(s).unsigned_abs() as u64) as usize,
            _ => *s.pick(&[0, 1, usize::MAX, 10, 16, 256]),
        };
        Some(match s.us(10) {
            0 => Occ::Opt,
            1 => Occ::Star,
            2 => Occ::Plus,
            3 => Occ::N(Some(n(s)), Some(n(s))),
            4 => Occ::N(Some(n(s)), None),
            5 => Occ::N(None, Some(n(s))),
            _ => return None,
        })
    }
    pub fn ent(&mut self, s: &mut Src, d: usize) -> Ent {
        let occ = self.occ(s);
        self.spend();
        let val = match s.weighted(&[30, 18, 12, 22, 14]) {
            1 => EV::M(Some(Key::Bare(ident(s))), self.ty(s, d)),
            2 => EV::M(Some(Key::Val(lit(s))), self.ty(s, d)),
            3 => EV::M(Some(Key::Ty(self.t1(s, d), s.bool())), self.ty(s, d)),
            4 if d > 0 => {
                let g = self.group(s, d - 1);
                if like_type(&g) {
                    EV::M(None, self.ty(s, d))
                } else {
                    EV::P(g)
                }
            }
            _ => EV::M(None, self.ty(s, d)),
        };
        Ent { occ, val }
    }
    pub fn group(&mut self, s: &mut Src, d: usize) -> Group {
        let n = 1 + s.weighted(&[75, 15, 10]);
        Group(
            (0..n)
                .map(|_| {
                    let k = s.weighted(&[12, 35, 28, 15, 10]);
                    (0..k).map(|_| self.ent(s, d)).collect()
                })
                .collect(),
        )
    }
    pub fn rule(&mut self, s: &mut Src, d: usize) -> Rule {
        let params = if s.pct(25) { (0..1 + s.us(3)).map(|_| ident(s)).collect() } else { vec![] };
        let val = if s.pct(65) {
            RV::T(self.ty(s, d))
        } else {
            let mut e = self.ent(s, d);
            // at this level, a number before `*` would be read as a type, and
            // a key needs parentheses
            if let Some(Occ::N(Some(_), u)) = e.occ {
                e.occ = Some(Occ::N(None, u));
            }
            match (&e.occ, &e.val) {
                (None, EV::M(Some(_), _)) => RV::G(pent(grp(vec![e]))),
                (None, EV::M(None, t)) => RV::T(t.clone()),
                _ => RV::G(e),
            }
        };
        Rule { name: ident(s), params, val }
    }
    pub fn schema(&mut self, s: &mut Src) -> Schema {
        let n = 1 + s.us(4);
        let d = 1 + s.us(4);
        Schema((0..n).map(|_| self.rule(s, d)).collect())
    }
}

/// Random syntax, or a random meaningful schema.
pub fn any_schema(s: &mut Src) -> (Schema, bool) {
    if s.pct(65) {
        let max = *s.pick(&[6, 15, 40, 100]);
        let mut sch = Syn::new(max).schema(s);
        if s.pct(2) {
            super::large::widen(s, &mut sch);
        }
        (sch, true)
    } else {
        (crate::gen::schema(s, &Cfg { rules: 5, depth: 3, ..Cfg::default() }), false)
    }
}

fn features(sch: &Schema, c: &mut Case) -> usize {
    fn t2(t: &T2, f: &mut Vec<&'static str>) {
        match t {
            T2::Lit(_) => f.push("literal"),
            T2::Name(_, a) | T2::Unwrap(_, a) | T2::Amp(_, a) => {
                if !a.is_empty() {
                    f.push("generic arguments");
                }
                match t {
                    T2::Unwrap(..) => f.push("unwrap"),
                    T2::Amp(..) => f.push("choice of group"),
                    _ => {}
                }
                a.iter().for_each(|x| t1(x, f));
            }
            T2::Paren(t) => {
                f.push("parentheses");
                ty_(t, f)
            }
            T2::Map(g) | T2::Arr(g) | T2::AmpInline(g) => {
                f.push("container");
                gr(g, f)
            }
        }
    }
    fn t1(t: &T1, f: &mut Vec<&'static str>) {
        match t {
            T1::S(x) => t2(x, f),
            T1::Range(a, _, b) => {
                f.push("range");
                t2(a, f);
                t2(b, f)
            }
            T1::Ctl(a, _, b) => {
                f.push("operator");
                t2(a, f);
                t2(b, f)
            }
        }
    }
    fn ty_(t: &Type, f: &mut Vec<&'static str>) {
        if t.0.len() > 1 {
            f.push("choice");
        }
        t.0.iter().for_each(|x| t1(x, f))
    }
    fn gr(g: &Group, f: &mut Vec<&'static str>) {
        if g.0.len() > 1 {
            f.push("group choice");
        }
        g.0.iter().flatten().for_each(|e| en(e, f))
    }
    fn en(e: &Ent, f: &mut Vec<&'static str>) {
        if e.occ.is_some() {
            f.push("occurrence");
        }
        match &e.val {
            EV::M(k, t) => {
                if k.is_some() {
                    f.push("key");
                }
                if let Some(Key::Ty(k, _)) = k {
                    t1(k, f);
                }
                ty_(t, f)
            }
            EV::P(g) => gr(g, f),
        }
    }
    let mut f = vec![];
    for r in &sch.0 {
        if !r.params.is_empty() {
            f.push("generic parameters");
        }
        match &r.val {
            RV::T(t) => ty_(t, &mut f),
            RV::G(e) => en(e, &mut f),
        }
    }
    let n = f.len();
    f.sort();
    f.dedup();
    for x in &f {
        c.label(x);
    }
    n
}

fn parse(t: &str) -> Result<A::Cddl, String> {
    match api::guard(|| cddl_cat::parse_cddl(t)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {}", e)),
        Err(p) => Err(format!("panic: {}", p)),
    }
}

/// The text must parse to the tree.
fn expect(sch: &Schema, text: &str) -> Result<(), Out> {
    let want = a_schema(sch);
    match parse(text) {
        Ok(got) if got == want => Ok(()),
        Ok(got) => {
            let (mut a, mut b) = (format!("{:?}", got.rules), format!("{:?}", want.rules));
            for i in 0..got.rules.len().min(want.rules.len()) {
                if got.rules[i] != want.rules[i] {
                    a = format!("{:?}", got.rules[i]);
                    b = format!("{:?}", want.rules[i]);
                    break;
                }
            }
            Err(Out::Fail(format!("text:\n{}\nparsed as {}\nwritten from {}", text, a, b)))
        }
        Err(e) => Err(Out::Fail(format!("text:\n{}\nvalid, but: {}", text, e))),
    }
}

// ------------------------------------------------------------------- C18

pub const C18: Prop = Prop {
    id: "C18",
    rule: "random syntax tree or schema, printed twice with random layout (spaces, tabs, LF, CRLF, comments full of brackets and \
quotes, or nothing, in every gap where the grammar allows it; commas left out or added); both texts must parse to the tree that \
was printed, and a meaningful schema must keep the verdict it has in plain layout. Non-trivial: a text with at least three comments \
or that differs from the plain one, distinct by text.",
    fixed: 0,
    quick: 240_000,
    thorough: 4_000_000,
    budget: 40_000_000,
    f: c18,
};

fn c18(s: &mut Src, c: &mut Case) -> Out {
    let (sch, syn) = any_schema(s);
    let plain = sch.text();
    for _ in 0..2 {
        let (mut text, comments, _) = sch.text_alt(s, false);
        match s.us(8) {
            // the text may end in a comment without a line end
            0 => text.push_str("; end"),
            1 => {
                let l = text.trim_end_matches([' ', '\t', '\n', '\r']).len();
                if !text[..l].contains(';') {
                    text.truncate(l);
                }
            }
            _ => {}
        }
        c.execs += 1;
        if let Err(o) = expect(&sch, &text) {
            return o;
        }
        if text != plain {
            if comments >= 3 {
                c.label("3+ comments");
            }
            c.nontrivial(&text);
            c.sample(|| text.clone());
        }
        if !syn {
            c.label("verdict");
            let (v, _) = crate::gen::value_for(s, &sch, false);
            let rule = &sch.0[0].name;
            if heavy(&sch, rule, &v) {
                continue;
            }
            let a = api::cbor_bytes(rule, &plain, &v.cbor());
            let b = api::cbor_bytes(rule, &text, &v.cbor());
            c.execs += 2;
            if a != b || matches!(a, Y::P(_)) {
                return Out::Fail(format!("{}\nplain: {:?}\nlaid out: {:?}\n{}", show(&plain, rule, &v), a, b, text));
            }
        }
    }
    Out::Pass
}

// ------------------------------------------------------------------- C20

pub const C20: Prop = Prop {
    id: "C20",
    rule: "random syntax tree over the whole supported grammar (or, one time in three, a meaningful schema), printed (plain or with \
random layout and notation) and parsed: the result must equal the tree, node for node. Non-trivial: at least two constructs beyond \
single names and literals; distinct by text.",
    fixed: 0,
    quick: 900_000,
    thorough: 8_000_000,
    budget: 40_000_000,
    f: c20,
};

fn c20(s: &mut Src, c: &mut Case) -> Out {
    let (sch, _) = any_schema(s);
    let n = features(&sch, c);
    let text = match s.us(3) {
        0 => sch.text_alt(s, true).0,
        _ => sch.text(),
    };
    c.execs += 1;
    if let Err(o) = expect(&sch, &text) {
        return o;
    }
    if n >= 2 {
        c.nontrivial(&text);
        c.sample(|| text.clone());
    }
    Out::Pass
}

// ------------------------------------------------------------------- C19

pub const C19: Prop = Prop {
    id: "C19",
    rule: "(a) random literals, in random notations and at every kind of place (rule value, entry, keys, range end, operator, \
generic argument, occurrence bound), must parse to exactly their values; (b) a literal accepts its value in any notation and only \
that value among near misses; (c) literals that are ill-formed or out of range must be parse errors. Non-trivial: every case; \
distinct by text.",
    fixed: 0,
    quick: 1_500_000,
    thorough: 6_000_000,
    budget: 40_000_000,
    f: c19,
};

fn lit_at(s: &mut Src, l: Lit) -> Rule {
    let t1 = T1::S(T2::Lit(l.clone()));
    let t = ty(t1.clone());
    let i = s.us(14);
    let val = match i {
        0 | 1 => RV::T(t),
        2 => RV::T(Type(vec![name("int"), t1])),
        3 => RV::T(ty(arr(vec![ent(t.clone()), ent(t)]))),
        4 => RV::T(ty(map(vec![kent(Key::Val(l), tn("int"))]))),
        5 => RV::T(ty(map(vec![kent(Key::Ty(t1, s.bool()), t)]))),
        6 => RV::T(ty(T1::Range(T2::Lit(l.clone()), s.bool(), T2::Lit(lit(s))))),
        7 => RV::T(ty(T1::Ctl(T2::Lit(lit(s)), "size".into(), T2::Lit(l)))),
        8 => RV::T(ty(T1::S(T2::Name("g".into(), vec![t1, name("int")])))),
        9 => RV::G(pent(grp(vec![kent(Key::Val(l), t)]))),
        10 => match l {
            Lit::Int(i) if i >= 0 => {
                let o = Occ::N(Some(i as u64 as usize), if s.bool() { Some(gen_int(s).unsigned_abs() as u64 as usize) } else { None });
                RV::T(ty(arr(vec![oent(o, ent1(lit_i(5)))])))
            }
            _ => RV::T(ty(arr(vec![oent(Occ::Star, ent(t))]))),
        },
        11 => RV::G(oent(Occ::N(None, Some(s.us(100))), ent(t))),
        12 => RV::T(ty(T1::S(T2::AmpInline(grp(vec![kent(Key::Bare("a".into()), t)]))))),
        _ => RV::T(ty(T1::S(T2::Map(Group(vec![vec![kent(Key::Bare("x".into()), t.clone())], vec![kent(Key::Val(l), t)]]))))),
    };
    Rule { name: "x".into(), params: vec![], val }
}

/// A literal that must not parse, as text.
pub fn bad_lit(s: &mut Src) -> (String, &'static str) {
    let over = |s: &mut Src| -> i128 {
        (1i128 << 64) + match s.us(4) {
            0 => 0,
            1 => s.us(10) as i128,
            2 => 1i128 << (64 + s.us(50)),
            _ => s.u64() as i128,
        }
    };
    let c = |s: &mut Src| *s.pick(&['\u{0}', '\u{1}', '\n', '\t', '\r', '\u{1f}', '\u{7f}', '\u{10fffe}', '\u{10ffff}']);
    match s.us(19) {
        0 => (format!("{}", over(s)), "integer too large"),
        1 => {
            let n = over(s);
            (if s.bool() { format!("0x{:x}", n) } else { format!("0X{:X}", n) }, "integer too large")
        }
        2 => (format!("0b{:b}", over(s)), "integer too large"),
        3 => {
            let n = (1i128 << 63) + 1 + s.u64() as i128 * s.us(2) as i128;
            let t = match s.us(3) {
                0 => format!("-{}", n),
                1 => format!("-0x{:x}", n),
                _ => format!("-0b{:b}", n),
            };
            (t, "integer too small")
        }
        4 => {
            let e = *s.pick(&["e", "E", "e+", "E+", ".5e", ".25E+"]);
            (format!("{}{}{}", 1 + s.us(9), e, 309 + s.us(10000)), "float too large")
        }
        5 => {
            let mut b = gen_bytes(s);
            if s.pct(90) {
                b.truncate(40);
            }
            let mut h = hex(&b);
            h.push('7');
            if s.pct(30) {
                // whitespace does not count
                for _ in 0..1 + s.us(3) {
                    let i = s.us(h.len() + 1);
                    h.insert(i, *s.pick(&[' ', '\n', '\t']));
                }
            }
            (format!("h'{}'", h), "odd number of hex digits")
        }
        6 => {
            let n = if s.bool() { 2 } else { s.size(40) };
            let b: Vec<u8> = (0..n).map(|_| s.byte()).collect();
            let mut h: Vec<char> = hex(&b).chars().collect();
            if s.pct(20) {
                // what is a prefix elsewhere
                let at = s.us(h.len() + 1);
                h.splice(at..at, s.pick(&["0x", "0X", "x", "0b1", "#", "u+", "0x0", "16_", "--", "=="]).chars());
                if h.iter().all(|c| c.is_ascii_hexdigit()) {
                    h.insert(at, 'x');
                }
                return (format!("h'{}'", h.iter().collect::<String>()), "not a hex digit");
            }
            let bad = *s.pick(&['g', 'z', '-', '_', 'x', '.', 'é', '"', '/', '{', '~', 'G', '+', ':', ',', '\u{a0}', '\u{2003}', '\u{feff}', '%', '#', '&']);
            if s.bool() {
                let i = s.us(h.len().max(1));
                if i < h.len() {
                    h[i] = bad;
                } else {
                    h.push(bad);
                }
            } else {
                // the digits alone would do
                let i = s.us(h.len() + 1);
                h.insert(i, bad);
            }
            (format!("h'{}'", h.iter().collect::<String>()), "not a hex digit")
        }
        7 => {
            let b = [s.byte(), s.byte(), s.byte()];
            let mut h: Vec<char> = b64url(&b).chars().collect();
            let bad = *s.pick(&['!', '*', '"', ' ', 'é', '.', '~', '{', '%', '#', ',', '\n', '\t', '\u{a0}', '@', '^', '`', ':']);
            match s.us(4) {
                0 => h.insert(s.us(5), bad),
                1 => h.push(bad),
                2 => h.insert(0, bad),
                _ => h[s.us(4)] = bad,
            }
            (format!("b64'{}'", h.iter().collect::<String>()), "not a base64url digit")
        }
        8 => {
            let b = gen_bytes(s);
            let mut t = b64url(&b);
            t.truncate(40);
            t.retain(|x| x != '=');
            while t.len() % 4 != 1 {
                t.push('A');
            }
            (format!("b64'{}'", t), "base64 of impossible length")
        }
        9 => {
            let e = *s.pick(&[
                "\\q", "\\x41", "\\u", "\\u12", "\\u123g", "\\u12G4", "\\0", "\\a", "\\v", "\\e", "\\U00000041", "\\ud800",
                "\\udc00", "\\ud800x", "\\ud83d\\u0041", "\\ude00\\ud83d", "\\ ", "\\N", "\\é", "\\u{41}", "\\u+041", "\\u 041",
            ]);
            if s.bool() {
                (format!("\"ab{}xy\"", e), "bad escape")
            } else {
                (format!("'ab{}xy'", e), "bad escape")
            }
        }
        10 => (format!("\"ab{}cd\"", c(s)), "control character"),
        11 => (format!("'ab{}cd'", c(s)), "control character"),
        12 => ((*s.pick(&["\"abc", "\"abc\\\"", "'abc", "h'00", "b64'AAAA", "\"", "'", "h'", "\"a\n\""])).to_string(), "not closed"),
        13 => {
            let t = *s.pick(&[
                "1.", "1.e5", ".5", "-.5", "-", "--5", "- 5", "1e", "1e+", "1.5e", "1.5e-", "1.5.5", "1e5.5", "0x", "0xg",
                "0b", "0b2", "0x-5", "-0x", "1.5e 5", "1 .5", "00", "01", "-01", "007", "0b12", "1_000", "1,000", "1.0f", "0o17",
                "5h", "1x", "0.", "-0.", "1e5e5", "1.-5", "1.+5", "٣", "1.٣",
            ]);
            (t.to_string(), "ill-formed number")
        }
        14 => {
            let t = match s.us(3) {
                0 => format!("0x{:x}p{}", s.u64(), s.range(-9, 9)),
                1 => format!("0x{:x}.{:x}p{}", s.byte(), s.byte(), s.range(-9, 9)),
                _ => format!("-0X1.8P{}", s.us(10)),
            };
            (t, "hexadecimal float")
        }
        15 => ("h\"00\"".into(), "wrong quotes"),
        16 => ((*s.pick(&["b32'AA'", "b16'00'", "x'00'", "b64\"AAAA\"", "B32'AA'"])).into(), "unknown byte string kind"),
        17 => (format!("\"{}\" \"x\"", "a".repeat(s.us(3))), "text concatenation"),
        _ => ((*s.pick(&["h '00'", "b64 'AAAA'", "h'00' h'00'", "'a' 'b'", "``", "`a`", "“a”", "‘a’"])).into(), "ill-formed string"),
    }
}

fn c19(s: &mut Src, c: &mut Case) -> Out {
    match s.weighted(&[50, 25, 25]) {
        0 => {
            c.label("parsed value");
            let rules = (0..1 + s.us(3)).map(|_| {
                let l = lit(s);
                lit_at(s, l)
            });
            let sch = Schema(rules.collect());
            for _ in 0..2 {
                let (text, _, _) = sch.text_alt(s, true);
                c.execs += 1;
                if let Err(o) = expect(&sch, &text) {
                    return o;
                }
                c.nontrivial(&text);
                c.sample(|| text.clone());
            }
            Out::Pass
        }
        1 => {
            c.label("verdict");
            if s.pct(4) {
                // zero with a sign is zero
                let z = *s.pick(&["-0", "-0x0", "-0b0", "-0x00", "-0b000", "-0X0", "-0B0"]);
                let zero = *s.pick(&["0", "0x0", "0b0"]);
                let mk = match s.us(9) {
                    0 | 1 => |z: &str| format!("x = {}\n", z),
                    2 => |z: &str| format!("x = [tstr / {}, * any]\n", z),
                    3 => |z: &str| format!("x = {{ {}: any, * any => any }}\n", z),
                    4 => |z: &str| format!("x = {{ {} => any, * any => any }}\n", z),
                    5 => |z: &str| format!("x = {}..5\n", z),
                    6 => |z: &str| format!("x = -5...{}\n", z),
                    7 => |z: &str| format!("x = int .gt {}\n", z),
                    _ => |z: &str| format!("x = g<{}>\ng<t> = {{ ? \"a\" => t, * any => any }}\n", z),
                };
                let i = V::Int(*s.pick(&[0, 0, 1, -1, 5]));
                let v = match s.us(4) {
                    0 => i,
                    1 => V::Arr(vec![i]),
                    2 => V::Map(vec![(i, V::Null)]),
                    _ => V::Map(vec![(crate::val::t("a"), i)]),
                };
                let (a, b) = (mk(z), mk(zero));
                c.execs += 2;
                let p = Path::pick(s, &v);
                let (ya, yb) = (api::run(p, "x", &a, &v), api::run(p, "x", &b, &v));
                if ya != yb || ya.is_err() {
                    return Out::Fail(format!("{}\nvia {:?}: got {:?}, but {:?} for\n{}", show(&a, "x", &v), p, ya, yb, b));
                }
                c.nontrivial(&(a, v.show()));
                return Out::Pass;
            }
            let l = lit(s);
            let sch = Schema(vec![rule_t("x", ty(T1::S(T2::Lit(l.clone()))))]);
            let (text, _, _) = sch.text_alt(s, true);
            for _ in 0..3 {
                let v = super::scalar::near(s, &l);
                if !v.cbor_ok() {
                    continue;
                }
                let want = lit_eq(&l, &v);
                let p = Path::pick(s, &v);
                let got = api::run(p, "x", &text, &v);
                c.execs += 1;
                if !fits(want, &got) {
                    return Out::Fail(format!("{}\nvia {:?}: got {:?}, expected {:?}", show(&text, "x", &v), p, got, want));
                }
            }
            c.nontrivial(&text);
            c.sample(|| text.clone());
            Out::Pass
        }
        _ => {
            let (b, why) = bad_lit(s);
            c.label(why);
            let text = match s.us(6) {
                0 => format!("x = {}\n", b),
                1 => format!("x = {}\ny = int\n", b),
                2 => format!("a = tstr\nx = nil / (int / {})\ny = int\n", b),
                3 => format!("x = [g<{}>]\n", b),
                4 => format!("x = {{ k: (tstr / {} / int), m: int }}\n", b),
                _ => format!("x = {{ ? k: g<int, {}> }}\n", b),
            };
            c.execs += 1;
            match api::guard(|| cddl_cat::parse_cddl(&text)) {
                Ok(Err(_)) => {}
                Ok(Ok(t)) => return Out::Fail(format!("text: {}\nnot a literal ({}), but accepted as {:?}", text, why, t)),
                Err(p) => return Out::Fail(format!("text: {}\npanic: {}", text, p)),
            }
            let got = api::cbor_bytes("x", &text, &[0x01]);
            if got != Y::Err(K::Parse) {
                return Out::Fail(format!("text: {}\n{}: expected a parse error, got {:?}", text, why, got));
            }
            c.nontrivial(&text);
            c.sample(|| format!("{} -> rejected ({})", text, why));
            Out::Pass
        }
    }
}

// ------------------------------------------------------------------- C25

pub const C25: Prop = Prop {
    id: "C25",
    rule: "a random valid schema, and in it, at a random place, one of: syntax that CDDL has and the library does not (/=, //=, \
tags, #-types, hexadecimal floats), syntax that is not CDDL (also in the place of an arrow, colon or occurrence), a bracket removed or exchanged, text cut off inside brackets, a stray \
character, an operator or prelude type that is not supported, or an unusable operand. Text must be refused with a parse error, the \
others with an error of their kind; nothing may give a verdict. Non-trivial: every case; distinct by text.",
    fixed: 0,
    quick: 1_000_000,
    thorough: 6_000_000,
    budget: 40_000_000,
    f: c25,
};

/// Offsets of the text outside literals (the plain layout has no comments).
fn outside(t: &str) -> Vec<(usize, char)> {
    let mut r = vec![];
    let mut q: Option<char> = None;
    let mut esc = false;
    for (i, ch) in t.char_indices() {
        match q {
            None => {
                if ch == '"' || ch == '\'' {
                    q = Some(ch);
                } else {
                    r.push((i, ch));
                }
            }
            Some(x) => {
                if esc {
                    esc = false;
                } else if ch == '\\' {
                    esc = true;
                } else if ch == x {
                    q = None;
                }
            }
        }
    }
    r
}

/// The brackets outside literals: not the arrow's.
fn brackets(t: &str) -> Vec<(usize, char)> {
    let b = t.as_bytes();
    outside(t)
        .into_iter()
        .filter(|(i, c)| "()[]{}<>".contains(*c) && !(*c == '>' && *i > 0 && b[*i - 1] == b'='))
        .collect()
}

const BAD_TYPES: &[&str] = &[
    "#", "#6", "#6.24(tstr)", "#6.0(tstr)", "#1.5", "#7.25", "#0", "#6.(int)", "#(int)", "0x1.8p3", "-0x1p-3", "int ..", ".. 5",
    "1 ..", "/ int", "int /", "~", "&", "~[int]", "~{a: int}", "~5", "~\"a\"", "~~a", "&5", "&[int]", "&&a", "&\"x\"", "~(a)",
    "int .", "int . size 3", "int .size", "foo<>", "foo<int,>", "foo<,int>", "foo<int tstr>", "foo<int / tstr>", "foo<int",
    "[int", "(int", "{a: int", "int]", "int)", "int}", "[int}", "{a: int]", "(int]", "[(int])", "\"abc", "'abc", "h'0", "h'zz'",
    "!int", "int!", "%x41", "int | tstr", "int || tstr", "int & tstr =", "[int;]", "[int // tstr", "{? }", "[? ]", "[*]", "[1*2]", "{a:}", "{: int}",
    "{=> int}", "{a =>}", "{a ^ int}", "{a ^: int}", "{a = int}", "{a :: int}", "{a => => int}", "[,]", "[int,, tstr]", "[, int]", "[a: b: c]",
    "{a: int ::}", "{\"a\" = int}", "[** int]", "[?? int]", "[+* int]", "[?+ int]", "[2**3 int]", "{a: int / }", "{(a: int}", "1..2..3",
    "int .size 3 .size 4", "1...2...3", "1....2", "-int", "+int", "*int", "~ ", "& ", "int / / tstr", "int /// tstr", "=", "== int", ":= int", "-> int", "\\", "`a`", "\"a\"\"",
    "(int,)", "(int tstr)", "(a: int)", "(? int)", "()", "int,", "?int", "a: int", "a => int", "\"a\": int",
    "é", "int é", "\u{a0}int", "\u{feff}int", "int\u{200b}", "\u{0}", "-", "a-", "a.", "a..", "a->b", "-a", ".a", "9a", "int*", "int?", "int+", "[int]*", "[...]", "...",
    "#6.24", "#6.1<int>(int)", "#1", "#7", "#3.9", "@ @",
];

const BAD_RULES: &[&str] = &[
    "zz /= int", "zz //= (a: int)", "zz", "zz =", "= int", "zz int", "zz == int", "zz := int", "zz = = int", "zz = int,", "zz<> = int",
    "zz<a,> = int", "zz<,a> = int", "zz<a b> = int", "zz<5> = int", "zz<\"a\"> = int", "zz<a = int", "zz a> = int", "zz <a> = int", "5 = int", "\"zz\" = int", "'zz' = int",
    "zz, yy = int", "zz. = int", "-zz = int", ".zz = int", "9zz = int", "zz => int", "zz: int", "zz = a: int", "zz = a => int",
    "zz = int // tstr", "zz = // int", "zz = (a: int) (b: int)", "zz = (a: int) / int", "zz = ? ", "zz = *", "(zz) = int", "[zz] = int", "zz = 2*2 int =", "$zz /= int", "$$zz //= (int)", "zz /= [int]",
    "zz //= [int]", "zz /= foo / bar", "zz<T> /= T", "zz<T> //= (a: T)", "#zz = int", "zz = int }", "zz = int )", "zz = int ]", "{ zz = int }", "zz = int\\", "import zz", "zz = int !", "// comment", "/* comment */", "# comment", "-- comment", "<!-- -->",
];

fn expect_parse_error(c: &mut Case, s: &mut Src, text: &str, what: &str) -> Out {
    c.execs += 2;
    match api::guard(|| cddl_cat::parse_cddl(text)) {
        Ok(Err(_)) => {}
        Ok(Ok(t)) => {
            return Out::Fail(format!("text:\n{}\ninvalid or unsupported ({}), but accepted as {:?}", text, what, t));
        }
        Err(p) => return Out::Fail(format!("text:\n{}\npanic: {}", text, p)),
    }
    let v = gen_small(s);
    let p = Path::pick(s, &v);
    let got = api::run(p, "x", text, &v);
    if got != Y::Err(K::Parse) {
        return Out::Fail(format!("text:\n{}\n{}: expected a parse error via {:?}, got {:?}", text, what, p, got));
    }
    c.nontrivial(text);
    c.sample(|| format!("{}\nrejected ({})", text, what));
    Out::Pass
}

fn c25(s: &mut Src, c: &mut Case) -> Out {
    let k = s.weighted(&[22, 14, 16, 10, 14, 12, 12]);
    if k >= 5 {
        return unsupported(s, c, k == 6);
    }
    let (sch, _) = any_schema(s);
    let mut text = sch.text();
    match k {
        0 if s.pct(8) => {
            // a bare key is a word, and takes no arguments
            let key = *s.pick(&["a", "k1", "int", "x", "zz-y", "g.h", "$s", "_u"]);
            let pool = ["int", "tstr", "1", "\"t\"", "[int]", "{a: int}", "(int / tstr)", "0..9", "b<int>", "&(a: 1)", "h'00'", "1.5"];
            let args: Vec<&str> = (0..1 + s.us(4)).map(|_| *s.pick(&pool)).collect();
            let e = format!("{}{}<{}>{}: {}", s.pick(&["", "", "? ", "* ", "1*2 "]), key, args.join(", "), s.pick(&["", "", " ", "\n"]), s.pick(&pool));
            let rule = match s.us(6) {
                0 | 1 => format!("x = {{{}}}\n", e),
                2 => format!("x = [{}]\n", e),
                3 => format!("x = {{a: int, {}}}\n", e),
                4 => format!("x = &({}, b: int)\n", e),
                _ => format!("x = [int, ({} // b: int)]\n", e),
            };
            c.label("bare key with arguments");
            let at = if s.bool() { 0 } else { text.len() };
            text.insert_str(at, &rule);
            expect_parse_error(c, s, &text, "bare key with arguments")
        }
        0 if s.pct(9) => {
            // an entry with something else for the arrow, the colon or the occurrence
            let key = *s.pick(&["\"a\"", "1", "-5", "1.5", "a", "tstr", "(int)", "[int]", "h'00'", "'ab'", "{a: int}", "0..5", "g<int>", "&(a: 1)", "~m"]);
            let val = *s.pick(&["int", "tstr", "b", "[int]", "{a: int}", "(int / tstr)"]);
            let e = if s.pct(70) {
                let op = *s.pick(&[
                    "->", "~>", "==>", "=>>", "<=", "=", ":=", "::", "= >", "=:", "^", "^:", "^ ->", "^^ =>", "=> ^", "-", ">", "--", "=>=", ">=", "~=>", "=> =>",
                    "^ ^ =>", "^=", "^ = >", ": :", "=>:", ":=>", "-->", ".=>", "|", "::=", "=> ,", ": ,", "=>,:", "^,=>", "=,",
                ]);
                c.label("bad arrow");
                format!("{}{} {} {}", s.pick(&["", "", "? ", "* "]), key, op, val)
            } else {
                let occ = *s.pick(&["**", "??", "++", "?*", "*?", "+?", "?+", "*+", "+*", "1**", "!", "#", "%", "1**2", "?,", "*,", "1*+", "^", "=>", ":", "..", "/", "//,,"]);
                c.label("bad occurrence");
                format!("{} {}: {}", occ, s.pick(&["a", "\"a\"", "1"]), val)
            };
            let rule = match s.us(6) {
                0 | 1 => format!("x = {{{}}}\n", e),
                2 => format!("x = [{}]\n", e),
                3 => format!("x = {{a: int, {}}}\n", e),
                4 => format!("x = {{{}, b: int}}\n", e),
                _ => format!("x = [int, (b: int // {})]\n", e),
            };
            let at = if s.bool() { 0 } else { text.len() };
            text.insert_str(at, &rule);
            expect_parse_error(c, s, &text, &e)
        }
        0 => {
            // a bad type, as an alternative of a type choice
            let lit;
            let b = if s.pct(25) {
                // (a literal that is fine when split in two could stand in a list)
                lit = bad_lit(s);
                match lit.1 {
                    "control character" | "bad escape" | "not closed" | "not a hex digit" | "odd number of hex digits" => lit.0.as_str(),
                    _ => *s.pick(BAD_TYPES),
                }
            } else {
                *s.pick(BAD_TYPES)
            };
            c.label("bad type");
            // an alternative is never a group entry, so the places agree
            let rule = match s.us(8) {
                0 => format!("x = int / {}\n", b),
                1 => format!("x = [int / {}]\n", b),
                2 => format!("x = {{a: int / {}}}\n", b),
                3 => format!("x = tstr / (int / {})\n", b),
                4 => format!("x = g<(int / {}), tstr>\n", b),
                5 => format!("x = tstr .size (1 / {})\n", b),
                6 => format!("x = {{ * (tstr / {}) => int }}\n", b),
                _ => format!("x = [a, int / (tstr / {}), b]\n", b),
            };
            // in a list, what follows the alternative could be the next entry
            if LIST_OK.contains(&b) && (rule.contains("[int /") || rule.contains("{a: int /")) {
                return Out::Discard;
            }
            let at = if s.bool() { 0 } else { text.len() };
            text.insert_str(at, &rule);
            expect_parse_error(c, s, &text, b)
        }
        1 if s.pct(15) => {
            // a comment ends at the end of its line only, and holds no control characters
            let i = if s.bool() { text.len() } else { 0 };
            let m = *s.pick(&["; a\rzz = int\n", ";\rzz = int\r\n", "; a\r\rzz = int\n", "zz = int ; b\r/ tstr\n", "zz = [int ; b\r]\n]\n"]);
            text.insert_str(i, m);
            c.label("carriage return in a comment");
            expect_parse_error(c, s, &text, "carriage return in a comment")
        }
        1 => {
            let b = *s.pick(BAD_RULES);
            c.label("bad rule");
            if s.pct(5) {
                // after many good ones
                let n = super::large::dim(s, 1100);
                let many: String = (0..n).map(|i| format!("many-{} = [int, tstr]\n", i)).collect();
                text = if s.bool() { format!("{}{}", many, text) } else { format!("{}{}", text, many) };
            }
            if s.bool() {
                text = format!("{}\n{}", b, text);
            } else {
                text.push_str(b);
                text.push('\n');
            }
            expect_parse_error(c, s, &text, b)
        }
        2 => {
            let bs = brackets(&text);
            if bs.is_empty() {
                return Out::Discard;
            }
            let (i, ch) = bs[s.us(bs.len())];
            match s.us(3) {
                0 => {
                    c.label("bracket removed");
                    text.remove(i);
                }
                1 => {
                    c.label("bracket exchanged");
                    let all: Vec<char> = "()[]{}<>".chars().filter(|x| *x != ch).collect();
                    let n = all[s.us(all.len())];
                    text.replace_range(i..i + 1, &n.to_string());
                }
                _ => {
                    c.label("bracket added");
                    text.insert(i, *s.pick(&['(', ')', '[', ']', '{', '}']));
                }
            }
            expect_parse_error(c, s, &text, "unbalanced brackets")
        }
        3 => {
            // cut off inside brackets
            let bs = brackets(&text);
            let mut d = 0;
            let mut spots = vec![];
            for w in bs.windows(2) {
                d += if "([{<".contains(w[0].1) { 1i32 } else { -1 };
                if d > 0 {
                    spots.push((w[0].0 + 1, w[1].0));
                }
            }
            if spots.is_empty() {
                return Out::Discard;
            }
            let (a, b) = spots[s.us(spots.len())];
            let mut cut = a + s.us(b - a + 1);
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            text.truncate(cut);
            c.label("cut off");
            expect_parse_error(c, s, &text, "cut off inside brackets")
        }
        _ => {
            // a character that no token contains
            let o = outside(&text);
            let (i, _) = o[s.us(o.len())];
            let ch = *s.pick(&['!', '%', '|', '`', '\\', '#', '\u{0}', '\u{7f}', 'é', '\u{a0}', '\u{feff}', '漢', '\u{2028}', '\u{85}', '\u{b}']);
            // not between the quote and the prefix of a byte string
            let mut at = i;
            while text[at..].starts_with(['\'']) {
                at += 1;
            }
            text.insert(at, ch);
            c.label("stray character");
            expect_parse_error(c, s, &text, "stray character")
        }
    }
}

/// No alternative, but an alternative and another entry (or a comma).
const LIST_OK: &[&str] = &["int,", "\"a\"\"\"", "9a", "@ @"];

fn unsupported(s: &mut Src, c: &mut Case, wrapped: bool) -> Out {
    let ctl = |a: T1, op: &str, b: T1| T1::Ctl(as_t2(&ty(a)), op.to_string(), as_t2(&ty(b)));
    let fl = |f: f64| T1::S(T2::Lit(Lit::Float(f)));
    let by = || T1::S(T2::Lit(Lit::Bytes(vec![1])));
    // (type, must already be refused when the schema is prepared, kinds)
    const U: &[K] = &[K::Unsupported];
    const S: &[K] = &[K::Structural];
    const US: &[K] = &[K::Unsupported, K::Structural];
    let (t, early, kinds, what): (T1, bool, &[K], &'static str) = match s.us(9) {
        0 | 1 => {
            let op = if s.pct(20) {
                loop {
                    let o = ident(s);
                    if !["size", "lt", "le", "gt", "ge", "regexp", "cbor"].contains(&o.as_str()) {
                        break o;
                    }
                }
            } else {
                s.pick(&[
                    "bits", "cborseq", "within", "and", "eq", "ne", "default", "pcre", "iregexp", "abnf", "json", "plus", "cat", "det",
                    "feature", "Size", "SIZE", "sizes", "siz", "lte", "less", "l", "g", "LT", "Regexp", "regex", "cbor-seq", "cbor.x",
                    "size-x", "lt1", "ge_", "xsize", "CBOR", "size.lt",
                ])
                .to_string()
            };
            let a = name(*s.pick(&["int", "uint", "tstr", "bstr", "any"]));
            let b = if s.bool() { lit_i(s.us(5) as i128) } else { name(*s.pick(&["int", "tstr", "uint"])) };
            (ctl(a, &op, b), true, U, "unknown operator")
        }
        2 => (name(*s.pick(UNSUPPORTED)), false, U, "unsupported prelude type"),
        8 => {
            // no name of the prelude takes arguments
            let n = if s.pct(10) { *s.pick(UNSUPPORTED) } else { *s.pick(PRELUDE) };
            let args = (0..1 + s.us(3)).map(|_| if s.bool() { lit_i(s.us(5) as i128) } else { name(*s.pick(&["int", "tstr", n])) }).collect();
            let t = match s.us(8) {
                0 => T2::Amp(n.into(), args),
                1 => T2::Unwrap(n.into(), args),
                _ => T2::Name(n.into(), args),
            };
            (T1::S(t), true, &[K::Generic, K::Unsupported], "arguments of a prelude type")
        }
        3 => {
            // limits that are no integers
            let b = match s.us(6) {
                0 => lit_t("3"),
                1 => fl(3.0),
                2 => by(),
                3 => arr(vec![ent1(lit_i(3))]),
                4 => map(vec![]),
                _ => name(*s.pick(&["int", "uint", "tstr", "any"])),
            };
            let (a, op) = *s.pick(&[("int", "lt"), ("uint", "le"), ("nint", "gt"), ("int", "ge"), ("tstr", "size"), ("bstr", "size"), ("uint", "size")]);
            (ctl(name(a), op, b), false, US, "limit of the wrong kind")
        }
        4 => {
            // targets that have no order or size
            let (a, op) = *s.pick(&[
                ("tstr", "lt"), ("bstr", "le"), ("bool", "gt"), ("float", "ge"), ("any", "lt"), ("null", "le"), ("float", "size"), ("bool", "size"),
                ("nint", "size"), ("int", "size"), ("any", "size"), ("null", "size"), ("float64", "lt"), ("text", "ge"),
            ]);
            (ctl(name(a), op, lit_i(s.us(5) as i128)), false, US, "target of the wrong kind")
        }
        5 => {
            let b = match s.us(4) {
                0 => lit_t(*s.pick(&["(", "[", "*", "a{2,1}", "\\", "(?P<", "[z-a]", "a**{", "(?<x", "\\p{Zzz}", ")", "+", "(?z)"])),
                1 => lit_i(5),
                2 => by(),
                _ => arr(vec![]),
            };
            (ctl(name("tstr"), "regexp", b), true, US, "unusable pattern")
        }
        6 => {
            let a = *s.pick(&["int", "bstr", "any", "bool", "uint", "float", "null"]);
            (ctl(name(a), "regexp", lit_t("a")), true, US, "regexp on no text")
        }
        _ => {
            let a = *s.pick(&["int", "tstr", "any", "bool", "uint", "float", "null"]);
            (ctl(name(a), "cbor", name("int")), true, US, "cbor on no bytes")
        }
    };
    let _ = S;
    c.label(what);
    // A value that makes the surroundings reach the type.
    let v = match &t {
        T1::Ctl(T2::Name(n, _), op, _) if !early && what != "unsupported prelude type" => match (n.as_str(), op.as_str()) {
            ("tstr" | "text", _) => super::V::Text("abc".into()),
            ("bstr", _) => V::Bytes(vec![1, 2, 3]),
            ("bool", _) => V::Bool(true),
            ("float" | "float64", _) => V::Float(1.5),
            ("null", _) => V::Null,
            ("nint", _) => V::Int(-1),
            _ => V::Int(1),
        },
        _ => gen_small(s),
    };
    let mut w = crate::gen::Wrap::new(t, v);
    if wrapped {
        for _ in 0..1 + s.us(3) {
            w.add(s, false);
        }
    }
    let sch = w.schema("x");
    let text = sch.text();
    if early {
        // refused whatever part of the schema is used
        let mut text = text.clone();
        text.push_str("zz = int\n");
        for rule in ["zz", "x"] {
            c.execs += 1;
            let got = api::cbor_bytes(rule, &text, &w.v.cbor());
            match &got {
                Y::Err(k) if kinds.contains(k) => {}
                _ => return Out::Fail(format!("{}\n{}: expected an error {:?}, got {:?}", show(&text, rule, &w.v), what, kinds, got)),
            }
        }
    } else {
        let p = Path::pick(s, &w.v);
        c.execs += 1;
        let got = api::run(p, "x", &text, &w.v);
        match &got {
            Y::Err(k) if kinds.contains(k) => {}
            // surroundings may try another alternative first that matches;
            // ask the model whether the type has to be reached
            _ => {
                let m = Model::new(&sch).check("x", &w.v);
                if m == R::Ambig {
                    return Out::Discard;
                }
                if m != R::Fatal {
                    return Out::Discard;
                }
                return Out::Fail(format!("{}\n{}: expected an error {:?}, got {:?}", show(&text, "x", &w.v), what, kinds, got));
            }
        }
    }
    c.nontrivial(&(text.as_str(), w.v.show()));
    c.sample(|| format!("{}\n-> error ({})", show(&text, "x", &w.v), what));
    Out::Pass
}

// ------------------------------------------------------------------- C29

pub const C29: Prop = Prop {
    id: "C29",
    rule: "random syntax tree or schema printed with random layout; slice parsing must give the same rules as ordinary parsing, with \
each rule's text exactly the part of the input it was printed as, and that text alone must parse to the same rule; slice flattening \
must give the same rule definitions as ordinary flattening under the same names, with the same texts. Non-trivial: two or more \
rules; distinct by text.",
    fixed: 0,
    quick: 150_000,
    thorough: 4_000_000,
    budget: 40_000_000,
    f: c29,
};

fn blank(t: &str) -> bool {
    // whitespace and comments only
    let mut t = t.trim_start();
    while let Some(r) = t.strip_prefix(';') {
        t = match r.find('\n') {
            Some(i) => r[i..].trim_start(),
            None => "",
        };
    }
    t.is_empty()
}

fn c29(s: &mut Src, c: &mut Case) -> Out {
    let (mut sch, syn) = if s.pct(10) {
        // little but literals
        let n = 1 + s.us(2);
        let rules = (0..n)
            .map(|i| {
                let x = T1::S(T2::Lit(lit(s)));
                let nm = format!("x{}", i);
                match s.us(5) {
                    0 | 1 => rule_t(&nm, ty(x)),
                    2 | 3 => rule_t(&nm, ty(arr(vec![ent1(x)]))),
                    _ => rule_g(&nm, pent(grp(vec![ent1(x), ent1(name("int"))]))),
                }
            })
            .collect();
        (Schema(rules), true)
    } else {
        any_schema(s)
    };
    if syn {
        // of rules with the same name one replaces the other
        let mut seen: Vec<String> = vec![];
        for r in sch.0.iter_mut() {
            while seen.contains(&r.name) {
                r.name.push('1');
            }
            seen.push(r.name.clone());
        }
    }
    let (text, spans) = {
        let (lay, notation) = (s.pct(80), s.bool());
        let mut r = if lay { Rend::new(Some(s)) } else { Rend::new(None) };
        r.notation = lay && notation;
        r.schema(&sch);
        (r.o, r.spans)
    };
    c.execs += 2;
    let got = match api::guard(|| cddl_cat::parser::slice_parse_cddl(&text)) {
        Ok(Ok(x)) => x,
        e => return Out::Fail(format!("text:\n{}\nslice parsing: {:?}", text, e)),
    };
    let plain = match parse(&text) {
        Ok(x) => x,
        Err(e) => return Out::Fail(format!("text:\n{}\n{}", text, e)),
    };
    if got.rules.len() != plain.rules.len() || got.rules.iter().zip(&plain.rules).any(|(a, b)| a.0 != *b) {
        return Out::Fail(format!("text:\n{}\nslice parsing gives other rules: {:?}\nthan parsing: {:?}", text, got, plain));
    }
    if plain != a_schema(&sch) {
        return Out::Fail(format!("text:\n{}\nparsed as {:?}", text, plain));
    }
    for ((i, (rule, own)), r) in got.rules.iter().enumerate().zip(&sch.0) {
        let (a, b) = spans[i];
        let want = &text[a..b];
        // an unparenthesised group entry takes the blanks after it along
        let loose = matches!(&r.val, RV::G(Ent { val: EV::M(..), .. }));
        let ok = own == want || (loose && own.starts_with(want) && text[a..].starts_with(own.as_str()) && blank(&own[want.len()..]));
        if !ok {
            return Out::Fail(format!("text:\n{}\nrule {} was printed as\n{:?}\nbut its text is\n{:?}", text, i, want, own));
        }
        match parse(own) {
            Ok(x) if x.rules.len() == 1 && x.rules[0] == *rule => {}
            e => return Out::Fail(format!("rule text {:?}\nshould parse to {:?}\nbut gives {:?}", own, rule, e)),
        }
    }
    let f = api::guard(|| cddl_cat::flatten::flatten_from_str(&text));
    let g = api::guard(|| cddl_cat::flatten::slice_flatten_from_str(&text));
    let f2 = api::guard(|| cddl_cat::flatten::flatten(&plain));
    let g2 = api::guard(|| cddl_cat::flatten::slice_flatten(&got));
    match (f, g, f2, g2) {
        (Ok(Ok(f)), Ok(Ok(g)), Ok(Ok(f2)), Ok(Ok(g2))) => {
            c.label("flattened");
            let mut want: Vec<(String, String, String)> =
                got.rules.iter().map(|(r, t)| (r.name.clone(), format!("{:?}", f.get(&r.name)), t.clone())).collect();
            let mut have: Vec<(String, String, String)> =
                g.iter().map(|(n, (d, t))| (n.clone(), format!("{:?}", Some(d)), t.clone())).collect();
            want.sort();
            have.sort();
            if want != have {
                return Out::Fail(format!("text:\n{}\nslice flattening gives {:?}\nexpected {:?}", text, have, want));
            }
            if f != f2 || g != g2 {
                return Out::Fail(format!("text:\n{}\nflattening the text and the tree differ", text));
            }
            if !syn {
                let ctx = cddl_cat::context::BasicContext::new(g.into_iter().map(|(n, (d, _))| (n, d)).collect());
                let (v, _) = crate::gen::value_for(s, &sch, false);
                let rule = &sch.0[0].name;
                if !heavy(&sch, rule, &v) {
                    let a = api::cbor_bytes(rule, &text, &v.cbor());
                    let b = api::ctx_cbor(rule, &ctx, &v);
                    c.execs += 2;
                    c.label("verdict");
                    if a != b {
                        return Out::Fail(format!("{}\nfrom text: {:?}; from kept rules: {:?}", show(&text, rule, &v), a, b));
                    }
                }
            }
        }
        (Ok(Err(a)), Ok(Err(b)), Ok(Err(a2)), Ok(Err(b2))) => {
            let k = api::class(Err(a));
            if [b, a2, b2].into_iter().any(|x| api::class(Err(x)) != k) {
                return Out::Fail(format!("text:\n{}\nflattening reports different kinds of errors", text));
            }
        }
        x => return Out::Fail(format!("text:\n{}\nflattening differs: {:?}", text, x)),
    }
    if sch.0.len() > 1 {
        c.nontrivial(&text);
        c.sample(|| format!("{:?}", got.rules.iter().map(|r| r.1.clone()).collect::<Vec<_>>()));
    }
    Out::Pass
}

// ------------------------------------------------------------------- C28

pub const C28: Prop = Prop {
    id: "C28",
    rule: "a random unit of 1-3 opening and closing pieces (or of list pieces) is nested (repeated) n, 2n, 4n... times; the \
allocations made by parsing and by flattening must grow by at most a factor of 5 per doubling (4 would be quadratic) once they are above 4000. Every \
text is valid and must parse. Non-trivial: every case; distinct by unit.",
    fixed: 0,
    quick: 30_000,
    thorough: 400_000,
    budget: 400_000_000,
    f: c28,
};

/// (open, close, may the content be read as a group entry only, kind)
/// kind: 0 plain, 1 the content is tried as a type before the group is read,
/// 2 a bracket that holds a group
const NEST: &[(&str, &str, u8)] = &[
    ("[", "]", 2),
    ("{a: ", "}", 2),
    ("{\"a\" => ", "}", 2),
    ("{* tstr ^ => ", "}", 2),
    ("(", ")", 0),
    ("(int / ", ")", 0),
    ("[int, ", ", tstr]", 2),
    ("[* ", "]", 2),
    ("[? (a: ", ")]", 2),
    ("[(int, ", ")]", 2),
    ("[int // ", "]", 2),
    ("{(a: ", ", b: int)}", 2),
    ("{", " => int}", 2),
    ("{* ", " ^ => int}", 2),
    ("g<", ">", 2),
    ("g<int, ", ">", 2),
    ("~g<", ">", 2),
    ("&g<", ">", 2),
    ("&(a: ", ")", 2),
    ("(tstr .size (", "))", 0),
    ("(bstr .cbor (", "))", 0),
    ("(1 .. (", "))", 0),
    ("(int / [", "])", 2),
    ("[1*2 ", "]", 2),
    ("; c\n[", "\n; d\n]", 2),
    ("[(", ", int)]", 1),
    ("{(", " => int)}", 1),
    ("[(", " // int)]", 1),
    ("[? (", ", int)]", 1),
    ("[(", ",)]", 1),
    // nested in front, with something after
    ("[", ", int]", 2),
    ("[", " ,]", 2),
    ("[? ", ", tstr, * any]", 2),
    ("[* ", ", int]", 2),
    ("[", " // int]", 2),
    ("{a: ", ", b: int}", 2),
    ("{? \"a\" => ", ", * tstr => any}", 2),
    ("{", " => int, b: int}", 2),
    ("{", " ^ => int // c: int}", 2),
    ("g<", ", int>", 2),
    ("~g<", ", int, tstr>", 2),
    ("&(a: ", ", b: int)", 2),
    ("(", " / int / tstr)", 0),
    ("[", " / int, tstr]", 2),
    ("[a: ", ", b: 1 .. 2]", 2),
];

const LIST: &[(&str, &str, &str)] = &[
    // (before, unit, after)
    ("x = [", "int, ", "int]"),
    ("x = [", "* int ", "]"),
    ("x = {", "a: int, ", "}"),
    ("x = {", "? \"k\" => tstr, ", "}"),
    ("x = ", "int / ", "tstr"),
    ("x = ", "\"abc\" / ", "tstr"),
    ("x = [", "(int, tstr), ", "]"),
    ("x = [", "(a: int), ", "]"),
    ("x = [", "int // ", "]"),
    ("x = {", "(a: int, b: int) // ", "}"),
    ("", "r = int\n", ""),
    ("", "r<a, b> = [a, b]\n", ""),
    ("", "r = (a: int, b: tstr)\n", ""),
    ("x = int ", "; comment\n", ""),
    ("x = int ", "\n\n", ""),
    ("x = ", " ", "int"),
    ("x = a", "-b", ""),
    ("x = \"", "a", "\""),
    ("x = \"", "\\n", "\""),
    ("x = 'a", "b", "'"),
    ("x = h'", "00 ", "'"),
    ("x = b64'", "AAAA", "'"),
    ("x = 0x1", "", ""),
    ("x = g<", "int, ", "int>"),
    ("x<", "a, ", "b> = int"),
    ("x = &(", "a: 1, ", "b: 2)"),
    ("x = [", "~a, ", "]"),
    ("x = [", "&a, ", "]"),
    ("x = [", "1..2, ", "]"),
    ("x = [", "tstr .size 3, ", "]"),
    ("x = [", "2*3 a, ", "]"),
    ("x = [", "[int], ", "]"),
    ("x = [", "{a: int}, ", "]"),
    ("x = {", "[int] => int, ", "}"),
    ("x = [", "((int)), ", "]"),
];

fn c28(s: &mut Src, c: &mut Case) -> Out {
    let nest = s.pct(70);
    let mut doubling = false;
    type Mk = Box<dyn Fn(usize) -> String>;
    let (mk, unit): (Mk, String) = if nest {
        let k = 1 + s.us(3);
        let mut us: Vec<(&str, &str, u8)> = vec![];
        for _ in 0..k {
            let u = *s.pick(NEST);
            us.push(u);
        }
        doubling = us.iter().any(|u| u.2 == 1);
        let unit = format!("{:?}", us.iter().map(|u| format!("{}_{}", u.0, u.1)).collect::<Vec<_>>());
        (
            Box::new(move |n| {
                let mut t = String::from("x = ");
                for _ in 0..n {
                    for u in &us {
                        t.push_str(u.0);
                    }
                }
                t.push_str("int");
                for _ in 0..n {
                    for u in us.iter().rev() {
                        t.push_str(u.1);
                    }
                }
                t.push('\n');
                t
            }),
            unit,
        )
    } else {
        let k = 1 + s.us(2);
        let (a, _, z) = LIST[s.us(LIST.len())];
        let (a, u, z) = if k == 1 {
            let l = *s.pick(LIST);
            (l.0, l.1.to_string(), l.2)
        } else {
            // mix units of the same surroundings
            let same: Vec<&(&str, &str, &str)> = LIST.iter().filter(|l| l.0 == a && l.2 == z).collect();
            let mut u = String::new();
            for _ in 0..2 + s.us(3) {
                u.push_str(same[s.us(same.len())].1);
            }
            (a, u, z)
        };
        let unit = format!("{:?}", (a, &u, z));
        (Box::new(move |n| format!("{}{}{}\n", a, u.repeat(n), z)), unit)
    };
    c.label(if nest { "nested" } else { "repeated" });
    let top = match (nest, c.thorough) {
        (true, false) => 64,
        (true, true) => 256,
        (false, false) => 512,
        (false, true) => 4096,
    };
    let mut n = if nest { 1 } else { 16 };
    let mut last = [0u64; 2];
    while n <= top {
        let t = mk(n);
        let (ast, a) = budget::count(|| parse(&t));
        c.execs += 1;
        let ast = match ast {
            Ok(x) => x,
            Err(e) => return Out::Fail(format!("unit {} x {}: valid text, but {}\n{}", unit, n, e, t)),
        };
        let (_, b) = budget::count(|| api::guard(|| cddl_cat::flatten::flatten(&ast).is_ok()));
        for (i, (x, what)) in [(a, "parsing"), (b, "flattening")].into_iter().enumerate() {
            if last[i] > 0 && x > 4000 && x > 5 * last[i] {
                let m = format!("{}: unit {} repeated {} times: {} allocations, {} times: {}", what, unit, n / 2, last[i], n, x);
                if doubling && i == 0 {
                    c.label("known exponential family");
                    return Out::Known("paren-group-nesting", "parsing takes time exponential in the depth of parenthesised groups alternating with other brackets, as in [([([(int, int)], int)], int)]".into());
                }
                return Out::Fail(m);
            }
            last[i] = x;
        }
        n *= 2;
    }
    c.nontrivial(&unit);
    c.sample(|| format!("unit {}: {} allocations at n = {}", unit, last[0], top));
    Out::Pass
}
