//! The harness's own CDDL syntax tree, a renderer to CDDL text (plain or with
//! arbitrary layout and literal notation), and a conversion to the public
//! `cddl_cat::ast`.

use crate::src::Src;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Text(String),
    Int(i128),
    Float(f64),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Type(pub Vec<T1>);

#[derive(Clone, Debug, PartialEq)]
pub enum T1 {
    S(T2),
    /// start, inclusive, end
    Range(T2, bool, T2),
    /// target, operator, argument
    Ctl(T2, String, T2),
}

#[derive(Clone, Debug, PartialEq)]
pub enum T2 {
    Lit(Lit),
    Name(String, Vec<T1>),
    Paren(Type),
    Map(Group),
    Arr(Group),
    Unwrap(String, Vec<T1>),
    Amp(String, Vec<T1>),
    AmpInline(Group),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Group(pub Vec<Vec<Ent>>);

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub occ: Option<Occ>,
    pub val: EV,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EV {
    M(Option<Key>, Type),
    P(Group),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Bare(String),
    Val(Lit),
    /// `type1 =>` or `type1 ^ =>`
    Ty(T1, bool),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Occ {
    Opt,
    Star,
    Plus,
    /// lower*upper
    N(Option<usize>, Option<usize>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RV {
    T(Type),
    G(Ent),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub name: String,
    pub params: Vec<String>,
    pub val: RV,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Schema(pub Vec<Rule>);

// ------------------------------------------------------------ constructors

pub fn name(n: &str) -> T1 {
    T1::S(T2::Name(n.into(), vec![]))
}
pub fn ty(t: T1) -> Type {
    Type(vec![t])
}
pub fn tn(n: &str) -> Type {
    ty(name(n))
}
pub fn lit_t(t: &str) -> T1 {
    T1::S(T2::Lit(Lit::Text(t.into())))
}
pub fn lit_i(i: i128) -> T1 {
    T1::S(T2::Lit(Lit::Int(i)))
}
pub fn ent(t: Type) -> Ent {
    Ent { occ: None, val: EV::M(None, t) }
}
pub fn ent1(t: T1) -> Ent {
    ent(ty(t))
}
pub fn kent(k: Key, t: Type) -> Ent {
    Ent { occ: None, val: EV::M(Some(k), t) }
}
pub fn oent(o: Occ, mut e: Ent) -> Ent {
    e.occ = Some(o);
    e
}
pub fn pent(g: Group) -> Ent {
    Ent { occ: None, val: EV::P(g) }
}
pub fn grp(es: Vec<Ent>) -> Group {
    Group(vec![es])
}
pub fn arr(es: Vec<Ent>) -> T1 {
    T1::S(T2::Arr(grp(es)))
}
pub fn map(es: Vec<Ent>) -> T1 {
    T1::S(T2::Map(grp(es)))
}
pub fn rule_t(n: &str, t: Type) -> Rule {
    Rule { name: n.into(), params: vec![], val: RV::T(t) }
}
pub fn rule_g(n: &str, e: Ent) -> Rule {
    Rule { name: n.into(), params: vec![], val: RV::G(e) }
}
/// A type as a type2 (parenthesised unless it is one already).
pub fn as_t2(t: &Type) -> T2 {
    match &t.0[..] {
        [T1::S(t2)] => t2.clone(),
        _ => T2::Paren(t.clone()),
    }
}
pub fn as_t1(t: &Type) -> T1 {
    match &t.0[..] {
        [t1] => t1.clone(),
        _ => T1::S(T2::Paren(t.clone())),
    }
}

impl Occ {
    pub fn limits(&self) -> (usize, usize) {
        match self {
            Occ::Opt => (0, 1),
            Occ::Star => (0, usize::MAX),
            Occ::Plus => (1, usize::MAX),
            Occ::N(a, b) => (a.unwrap_or(0), b.unwrap_or(usize::MAX)),
        }
    }
}

// ---------------------------------------------------------------- rendering

/// How to lay out the text. `None`: canonical.
pub struct Rend<'a, 'b> {
    pub o: String,
    lay: Option<&'a mut Src<'b>>,
    /// vary the notation of literals too
    pub notation: bool,
    /// pretty: newlines inside groups
    pub count_comments: usize,
    pub count_bases: usize,
    /// where each rule is in the text
    pub spans: Vec<(usize, usize)>,
    no_comma: bool,
}

impl Schema {
    pub fn text(&self) -> String {
        let mut r = Rend::new(None);
        r.schema(self);
        r.o
    }
    pub fn text_alt(&self, s: &mut Src, notation: bool) -> (String, usize, usize) {
        let mut r = Rend::new(Some(s));
        r.notation = notation;
        r.schema(self);
        (r.o, r.count_comments, r.count_bases)
    }
    pub fn rule(&self, n: &str) -> Option<&Rule> {
        self.0.iter().find(|r| r.name == n)
    }
}

pub fn text_lit(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        push_esc(&mut o, c, '"', false);
    }
    o.push('"');
    o
}

fn plain_char(c: char) -> bool {
    let v = c as u32;
    (0x20..=0x7e).contains(&v) || (0x80..=0x10FFFD).contains(&v)
}

fn push_u(o: &mut String, c: char) {
    let mut b = [0u16; 2];
    for u in c.encode_utf16(&mut b) {
        // digits of either case
        if c as u32 & 1 == 0 {
            write!(o, "\\u{:04x}", u).unwrap();
        } else {
            write!(o, "\\u{:04X}", u).unwrap();
        }
    }
}

fn push_esc(o: &mut String, c: char, quote: char, force: bool) {
    if c == '"' && quote == '"' {
        o.push_str("\\\"");
    } else if c == '\\' {
        o.push_str("\\\\");
    } else if c == '\'' && quote == '\'' {
        o.push_str(if force { "\\u0027" } else { "\\'" });
    } else if force {
        match c {
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            '/' => o.push_str("\\/"),
            _ => push_u(o, c),
        }
    } else if plain_char(c) {
        o.push(c)
    } else {
        push_u(o, c)
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        write!(o, "{:02x}", x).unwrap();
    }
    o
}

pub fn b64url(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

impl<'a, 'b> Rend<'a, 'b> {
    pub fn new(lay: Option<&'a mut Src<'b>>) -> Self {
        Rend { o: String::new(), lay, notation: false, count_comments: 0, count_bases: 0, spans: vec![], no_comma: false }
    }
    fn below(&mut self, n: u64) -> u64 {
        match &mut self.lay {
            Some(s) => s.below(n),
            None => 0,
        }
    }
    fn pct(&mut self, p: u32) -> bool {
        match &mut self.lay {
            Some(s) => s.pct(p),
            None => false,
        }
    }
    fn comment(&mut self) {
        self.count_comments += 1;
        self.o.push(';');
        const C: &[&str] = &[
            "", " comment", " }])>", " \"quote", " 'h", " ; ; ", " // / = =>", " a = int", " é漢🦀", "\t tab", " 0x 1..5 ", " \\",
            " (* { [ <",
        ];
        let i = self.below(C.len() as u64) as usize;
        self.o.push_str(C[i]);
        let nl = self.below(2);
        self.o.push_str(if nl == 0 { "\n" } else { "\r\n" });
    }
    /// Optional whitespace; `canon` is what the plain renderer writes.
    fn ws(&mut self, canon: &str) {
        if self.lay.is_none() {
            self.o.push_str(canon);
            return;
        }
        let k = self.below(16);
        match k {
            0..=5 => self.o.push_str(canon),
            6..=8 => {}
            9 => {
                for _ in 0..1 + self.below(4) {
                    let k = self.below(5) as usize;
                    self.o.push_str([" ", "\t", "\n", "\r\n", "  "][k]);
                }
            }
            10 | 11 => self.o.push(' '),
            12 => self.o.push_str("\n  "),
            13 => self.o.push_str("\t\r\n"),
            14 => self.comment(),
            _ => {
                self.o.push_str("  ");
                self.comment();
                if self.below(2) == 1 {
                    self.comment();
                }
                self.o.push('\n');
            }
        }
    }
    /// Whitespace that must not be empty.
    fn ws1(&mut self) {
        let n = self.o.len();
        self.ws(" ");
        if self.o.len() == n {
            self.o.push(' ');
        }
    }
    pub fn schema(&mut self, s: &Schema) {
        if self.lay.is_some() {
            self.ws("");
        }
        for r in &s.0 {
            let at = self.o.len();
            self.rule(r);
            self.spans.push((at, self.o.len()));
            // Rules need some separation: a name may follow a name.
            let n = self.o.len();
            self.ws("\n");
            if self.o.len() == n {
                self.o.push(' ');
            }
        }
    }
    pub fn rule(&mut self, r: &Rule) {
        self.o.push_str(&r.name);
        if !r.params.is_empty() {
            self.o.push('<');
            self.ws("");
            for (i, p) in r.params.iter().enumerate() {
                if i > 0 {
                    self.o.push(',');
                    self.ws(" ");
                }
                self.o.push_str(p);
                self.ws("");
            }
            self.o.push('>');
        }
        self.ws(" ");
        self.o.push('=');
        self.ws(" ");
        match &r.val {
            RV::T(t) => self.ty(t),
            RV::G(e) => self.ent(e),
        }
    }
    pub fn ty(&mut self, t: &Type) {
        for (i, x) in t.0.iter().enumerate() {
            if i > 0 {
                self.ws(" ");
                self.o.push('/');
                self.ws(" ");
            }
            self.t1(x);
        }
    }
    pub fn t1(&mut self, t: &T1) {
        match t {
            T1::S(t2) => self.t2(t2),
            T1::Range(a, inc, b) => {
                self.t2(a);
                // A name would swallow the dots; a number directly before
                // them is fine.
                if matches!(a, T2::Lit(_)) && self.pct(50) {
                    self.ws("");
                } else {
                    self.ws1();
                }
                self.o.push_str(if *inc { ".." } else { "..." });
                self.ws(" ");
                self.t2(b);
            }
            T1::Ctl(a, op, b) => {
                self.t2(a);
                if matches!(a, T2::Name(..) | T2::Unwrap(..) | T2::Amp(..)) {
                    self.ws1();
                } else {
                    self.ws(" ");
                }
                self.o.push('.');
                self.o.push_str(op);
                if matches!(b, T2::Name(..) | T2::Lit(_)) {
                    self.ws1();
                } else {
                    self.ws(" ");
                }
                self.t2(b);
            }
        }
    }
    fn gen_args(&mut self, a: &[T1]) {
        if !a.is_empty() {
            self.o.push('<');
            self.ws("");
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    self.o.push(',');
                    self.ws(" ");
                }
                self.t1(x);
                self.ws("");
            }
            self.o.push('>');
        }
    }
    pub fn t2(&mut self, t: &T2) {
        match t {
            T2::Lit(l) => self.lit(l),
            T2::Name(n, a) => {
                self.o.push_str(n);
                self.gen_args(a);
            }
            T2::Paren(t) => {
                self.o.push('(');
                self.ws("");
                self.ty(t);
                self.ws("");
                self.o.push(')');
            }
            T2::Map(g) => self.group('{', g, '}'),
            T2::Arr(g) => self.group('[', g, ']'),
            T2::Unwrap(n, a) => {
                self.o.push('~');
                self.ws("");
                self.o.push_str(n);
                self.gen_args(a);
            }
            T2::Amp(n, a) => {
                self.o.push('&');
                self.ws("");
                self.o.push_str(n);
                self.gen_args(a);
            }
            T2::AmpInline(g) => {
                self.o.push('&');
                self.ws("");
                self.group('(', g, ')');
            }
        }
    }
    fn group(&mut self, open: char, g: &Group, close: char) {
        let bare = std::mem::replace(&mut self.no_comma, false);
        self.o.push(open);
        self.ws("");
        for (i, c) in g.0.iter().enumerate() {
            if i > 0 {
                self.ws(" ");
                self.o.push_str("//");
                self.ws(" ");
            }
            for (j, e) in c.iter().enumerate() {
                self.ent(e);
                let last = j + 1 == c.len();
                if last {
                    // optional trailing comma
                    if !bare && self.pct(15) {
                        self.ws("");
                        self.o.push(',');
                        self.ws("");
                    }
                } else if self.pct(25) {
                    // entries may be separated by whitespace alone
                    self.ws1();
                } else {
                    self.ws("");
                    self.o.push(',');
                    self.ws(" ");
                }
            }
        }
        self.ws("");
        self.o.push(close);
    }
    pub fn ent(&mut self, e: &Ent) {
        if let Some(o) = &e.occ {
            match o {
                Occ::Opt => self.o.push('?'),
                Occ::Star => self.o.push('*'),
                Occ::Plus => self.o.push('+'),
                Occ::N(a, b) => {
                    if let Some(a) = a {
                        self.uint(*a as u64, true);
                    }
                    self.o.push('*');
                    if let Some(b) = b {
                        self.uint(*b as u64, true);
                    }
                }
            }
            // `*` followed by a number literal would read as an upper bound
            self.ws1();
        }
        match &e.val {
            EV::M(k, t) => {
                match k {
                    Some(Key::Bare(n)) => {
                        self.o.push_str(n);
                        self.ws("");
                        self.o.push(':');
                        self.ws(" ");
                    }
                    Some(Key::Val(l)) => {
                        self.lit(l);
                        self.ws("");
                        self.o.push(':');
                        self.ws(" ");
                    }
                    Some(Key::Ty(t, cut)) => {
                        self.t1(t);
                        self.ws(" ");
                        if *cut {
                            self.o.push('^');
                            self.ws(" ");
                        }
                        self.o.push_str("=>");
                        self.ws(" ");
                    }
                    None => {}
                }
                self.ty(t);
            }
            EV::P(g) => {
                // "(type,)" is a group, "(type)" a type
                let no = std::mem::replace(&mut self.no_comma, like_type(g));
                self.group('(', g, ')');
                self.no_comma = no;
            }
        }
    }
    fn uint(&mut self, n: u64, vary: bool) {
        let k = if vary && self.notation { self.below(4) } else { 0 };
        if k > 1 {
            self.count_bases += 1;
        }
        match k {
            2 => {
                let zeros = self.below(3) as usize;
                let up = self.pct(20);
                self.o.push_str(if up { "0X" } else { "0x" });
                for _ in 0..zeros {
                    self.o.push('0');
                }
                if self.below(2) == 0 {
                    write!(self.o, "{:x}", n).unwrap()
                } else {
                    write!(self.o, "{:X}", n).unwrap()
                }
            }
            3 => {
                let up = self.pct(20);
                self.o.push_str(if up { "0B" } else { "0b" });
                for _ in 0..self.below(3) {
                    self.o.push('0');
                }
                write!(self.o, "{:b}", n).unwrap()
            }
            _ => write!(self.o, "{}", n).unwrap(),
        }
    }
    pub fn lit(&mut self, l: &Lit) {
        match l {
            Lit::Int(i) => {
                if *i < 0 {
                    self.o.push('-');
                }
                self.uint(i.unsigned_abs() as u64, true);
            }
            Lit::Float(f) => {
                let k = if self.notation { self.below(6) } else { 0 };
                match k {
                    0 | 1 => write!(self.o, "{:?}", f).unwrap(),
                    2 => write!(self.o, "{:e}", f).unwrap(),
                    3 => write!(self.o, "{:E}", f).unwrap(),
                    // more digits than needed
                    4 => write!(self.o, "{:.22e}", f).unwrap(),
                    _ => {
                        // plain decimal with an explicit fraction
                        let a = f.abs();
                        if a == 0.0 || (1e-5..1e25).contains(&a) {
                            let mut x = format!("{}", f);
                            if !x.contains('.') {
                                x.push_str(".0");
                            }
                            for _ in 0..self.below(4) {
                                x.push('0');
                            }
                            self.o.push_str(&x);
                            if self.below(3) == 2 {
                                let e = ["e0", "e+0", "E-0", "e00"][self.below(4) as usize];
                                self.o.push_str(e);
                            }
                        } else {
                            write!(self.o, "{:?}", f).unwrap()
                        }
                    }
                }
            }
            Lit::Text(t) => {
                if self.notation {
                    self.o.push('"');
                    for c in t.chars() {
                        let f = self.pct(20);
                        push_esc(&mut self.o, c, '"', f);
                    }
                    self.o.push('"');
                } else {
                    self.o.push_str(&text_lit(t));
                }
            }
            Lit::Bytes(b) => {
                let k = if self.notation { self.below(4) } else { 0 };
                match (k, std::str::from_utf8(b)) {
                    (1, _) => {
                        self.count_bases += 1;
                        let up = self.pct(20);
                        self.o.push_str(if up { "B64'" } else { "b64'" });
                        self.o.push_str(&b64url(b));
                        self.o.push('\'');
                    }
                    (2, Ok(t)) => {
                        self.count_bases += 1;
                        self.o.push('\'');
                        for c in t.chars() {
                            let f = self.pct(20);
                            push_esc(&mut self.o, c, '\'', f);
                        }
                        self.o.push('\'');
                    }
                    (3, _) => {
                        let up = self.pct(20);
                        self.o.push_str(if up { "H'" } else { "h'" });
                        for x in b {
                            if self.below(2) == 0 {
                                write!(self.o, "{:x}", x >> 4).unwrap();
                            } else {
                                write!(self.o, "{:X}", x >> 4).unwrap();
                            }
                            if self.pct(15) {
                                self.o.push(' ');
                            }
                            write!(self.o, "{:x}", x & 15).unwrap();
                            if self.pct(25) {
                                self.o.push(' ');
                            }
                        }
                        self.o.push('\'');
                    }
                    _ => write!(self.o, "h'{}'", hex(b)).unwrap(),
                }
            }
        }
    }
}

// ---------------------------------------------------- conversion to the AST

use cddl_cat::ast as A;

pub fn a_lit(l: &Lit) -> A::Value {
    match l {
        Lit::Text(t) => A::Value::Text(t.clone()),
        Lit::Int(i) if *i >= 0 => A::Value::Uint(u64::try_from(*i).expect("literal range")),
        Lit::Int(i) => A::Value::Nint(i64::try_from(*i).expect("literal range")),
        Lit::Float(f) => A::Value::Float(*f),
        Lit::Bytes(b) => A::Value::Bytes(b.clone()),
    }
}
pub fn a_type(t: &Type) -> A::Type {
    A::Type(t.0.iter().map(a_t1).collect())
}
pub fn a_t1(t: &T1) -> A::Type1 {
    match t {
        T1::S(t2) => A::Type1::Simple(a_t2(t2)),
        T1::Range(a, inclusive, b) => {
            A::Type1::Range(A::TypeRange { start: a_t2(a), inclusive: *inclusive, end: a_t2(b) })
        }
        T1::Ctl(a, op, b) => A::Type1::Control(A::TypeControl { target: a_t2(a), op: op.clone(), arg: a_t2(b) }),
    }
}
fn a_ng(n: &str, a: &[T1]) -> A::NameGeneric {
    A::NameGeneric { name: n.to_string(), generic_args: a.iter().map(a_t1).collect() }
}
pub fn a_t2(t: &T2) -> A::Type2 {
    match t {
        T2::Lit(l) => A::Type2::Value(a_lit(l)),
        T2::Name(n, a) => A::Type2::Typename(a_ng(n, a)),
        T2::Paren(t) => A::Type2::Parethesized(a_type(t)),
        T2::Map(g) => A::Type2::Map(a_group(g)),
        T2::Arr(g) => A::Type2::Array(a_group(g)),
        T2::Unwrap(n, a) => A::Type2::Unwrap(a_ng(n, a)),
        T2::Amp(n, a) => A::Type2::Choiceify(a_ng(n, a)),
        T2::AmpInline(g) => A::Type2::ChoiceifyInline(a_group(g)),
    }
}
pub fn a_group(g: &Group) -> A::Group {
    A::Group(g.0.iter().map(|c| A::GrpChoice(c.iter().map(a_ent).collect())).collect())
}
pub fn a_ent(e: &Ent) -> A::GrpEnt {
    A::GrpEnt {
        occur: e.occ.as_ref().map(|o| match o {
            Occ::Opt => A::Occur::Optional,
            Occ::Star | Occ::N(None, None) => A::Occur::ZeroOrMore,
            Occ::Plus => A::Occur::OneOrMore,
            Occ::N(..) => {
                let (a, b) = o.limits();
                A::Occur::Numbered(a, b)
            }
        }),
        val: match &e.val {
            EV::M(k, t) => A::GrpEntVal::Member(A::Member {
                key: k.as_ref().map(|k| match k {
                    Key::Bare(n) => A::MemberKey { val: A::MemberKeyVal::Bareword(n.clone()), cut: true },
                    Key::Val(l) => A::MemberKey { val: A::MemberKeyVal::Value(a_lit(l)), cut: true },
                    Key::Ty(t, cut) => A::MemberKey { val: A::MemberKeyVal::Type1(a_t1(t)), cut: *cut },
                }),
                value: a_type(t),
            }),
            // the text "(type)" reads as a parenthesised type
            EV::P(g) if like_type(g) => match a_group(g).0.remove(0).0.remove(0).val {
                A::GrpEntVal::Member(m) => A::GrpEntVal::Member(A::Member {
                    key: None,
                    value: A::Type(vec![A::Type1::Simple(A::Type2::Parethesized(m.value))]),
                }),
                _ => unreachable!(),
            },
            EV::P(g) => A::GrpEntVal::Parenthesized(a_group(g)),
        },
    }
}
/// If the group is just one unkeyed, unrepeated type: that type.
pub fn paren_type(g: &Group) -> Option<&Type> {
    match &g.0[..] {
        [c] => match &c[..] {
            [Ent { occ: None, val: EV::M(None, t) }] => Some(t),
            _ => None,
        },
        _ => None,
    }
}
/// Would the parenthesised group read as a parenthesised type?
pub fn like_type(g: &Group) -> bool {
    match &g.0[..] {
        [c] => match &c[..] {
            [Ent { occ: None, val: EV::M(None, _) }] => true,
            [Ent { occ: None, val: EV::P(g) }] => like_type(g),
            _ => false,
        },
        _ => false,
    }
}
pub fn a_rule(r: &Rule) -> A::Rule {
    A::Rule {
        name: r.name.clone(),
        generic_parms: r.params.clone(),
        val: match &r.val {
            RV::T(t) => A::RuleVal::AssignType(a_type(t)),
            RV::G(e) => {
                let e = a_ent(e);
                match e {
                    A::GrpEnt { occur: None, val: A::GrpEntVal::Member(A::Member { key: None, value }) } => {
                        A::RuleVal::AssignType(value)
                    }
                    e => A::RuleVal::AssignGroup(e),
                }
            }
        },
    }
}
pub fn a_schema(s: &Schema) -> A::Cddl {
    A::Cddl { rules: s.0.iter().map(a_rule).collect() }
}
