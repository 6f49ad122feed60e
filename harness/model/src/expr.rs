//! Tag, occurrence and code patterns, subfield and field conditions:
//! syntax trees, random texts for them, and reference evaluation.
use crate::generate::{self, Opts};
use crate::rec::*;
use crate::rng::Rng;
use crate::text;

// ---------------------------------------------------------------- options

#[derive(Clone, Copy, Debug)]
pub struct MOpts {
    pub ignore_case: bool,
    pub threshold: f64,
}

impl Default for MOpts {
    fn default() -> Self {
        MOpts { ignore_case: false, threshold: 0.8 }
    }
}

// ---------------------------------------------------------------- style

/// How texts are written.
#[derive(Clone, Debug)]
pub struct Style {
    /// insert random white space where the notation allows it
    pub ws: bool,
    /// use the `$` notation now and then
    pub compat: bool,
    /// extra parentheses
    pub parens: bool,
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style { ws: r.bool(), compat: r.chance(1, 4), parens: r.chance(1, 3) }
    }
    pub fn plain() -> Style {
        Style { ws: false, compat: false, parens: false }
    }
}

pub fn ws(r: &mut Rng, st: &Style) -> &'static str {
    if !st.ws {
        return "";
    }
    r.pick(&["", "", " ", " ", "  ", "\t", "\n", " \r\n "])
}

fn sp(r: &mut Rng, st: &Style) -> &'static str {
    if !st.ws {
        return " ";
    }
    r.pick(&[" ", " ", "", "  ", "\n"])
}

/// A quoted string literal.
pub fn quote(r: &mut Rng, st: &Style, s: &str) -> String {
    let q = if r.bool() { '\'' } else { '"' };
    let mut out = String::new();
    out.push(q);
    for c in s.chars() {
        match c {
            '\\' => out.push_str("\\\\"),
            c if c == q => {
                out.push('\\');
                out.push(c);
            }
            '\n' if r.bool() => out.push_str("\\n"),
            '\r' if r.bool() => out.push_str("\\r"),
            '\t' if r.bool() => out.push_str("\\t"),
            '\u{8}' if r.bool() => out.push_str("\\b"),
            '\u{c}' if r.bool() => out.push_str("\\f"),
            '/' if r.chance(1, 4) => out.push_str("\\/"),
            c => out.push(c),
        }
        if st.ws && r.chance(1, 60) {
            out.push_str("\\\n  ");
            // the escape swallows all following white space
        }
    }
    out.push(q);
    out
}

/// True if the escape `\` + white space could swallow parts of the text.
fn safe_for_ws_escape(s: &str) -> bool {
    !s.chars().any(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
}

pub fn literal(r: &mut Rng, st: &Style, s: &str) -> String {
    let st = Style { ws: st.ws && safe_for_ws_escape(s), ..st.clone() };
    quote(r, &st, s)
}

// ---------------------------------------------------------------- patterns

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    One(u8),
    Dot,
    Set(Vec<(u8, u8)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct TagPat(pub [Class; 4]);

const ALPHABETS: [&[u8]; 4] =
    [b"012", b"0123456789", b"0123456789", b"@ABCDEFGHIJKLMNOPQRSTUVWXYZ"];

impl TagPat {
    pub fn lit(tag: &str) -> TagPat {
        let b = tag.as_bytes();
        TagPat([Class::One(b[0]), Class::One(b[1]), Class::One(b[2]), Class::One(b[3])])
    }

    /// A pattern close to the tag.
    pub fn near(r: &mut Rng, tag: &[u8; 4], patterns: usize) -> TagPat {
        let mut p = TagPat(tag.map(Class::One));
        if r.below(100) >= patterns {
            return p;
        }
        for i in 0..4 {
            let a = ALPHABETS[i];
            p.0[i] = match r.below(6) {
                0 => Class::Dot,
                1 | 2 => {
                    let n = r.range(1, 3);
                    Class::Set(
                        (0..n)
                            .map(|k| {
                                let x = if k == 0 && r.bool() {
                                    tag[i]
                                } else {
                                    *r.pick(a)
                                };
                                let y = *r.pick(a);
                                if r.bool() && x < y { (x, y) } else { (x, x) }
                            })
                            .collect(),
                    )
                }
                _ => p.0[i].clone(),
            };
        }
        p
    }

    pub fn matches(&self, tag: &[u8; 4]) -> bool {
        (0..4).all(|i| match &self.0[i] {
            Class::One(c) => *c == tag[i],
            Class::Dot => true,
            Class::Set(s) => s.iter().any(|(a, b)| *a <= tag[i] && tag[i] <= *b),
        })
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        for c in &self.0 {
            match c {
                Class::One(c) => s.push(*c as char),
                Class::Dot => s.push('.'),
                Class::Set(items) => {
                    s.push('[');
                    for (a, b) in items {
                        s.push(*a as char);
                        if a != b {
                            s.push('-');
                            s.push(*b as char);
                        }
                    }
                    s.push(']');
                }
            }
        }
        s
    }

    pub fn is_literal(&self) -> bool {
        self.0.iter().all(|c| matches!(c, Class::One(_)))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum OccPat {
    None,
    Any,
    Exact(Vec<u8>),
    Range(Vec<u8>, Vec<u8>),
}

impl OccPat {
    pub fn near(r: &mut Rng, occ: Option<&[u8]>) -> OccPat {
        match r.below(10) {
            0 => OccPat::Any,
            1 => OccPat::None,
            2 | 3 => {
                let w = occ.map_or(if r.bool() { 2 } else { 3 }, |o| o.len());
                let max = if w == 2 { 99 } else { 999 };
                let center: usize = occ.map_or(r.below(max + 1), |o| {
                    std::str::from_utf8(o).unwrap().parse().unwrap()
                });
                let lo = center.saturating_sub(r.below(3)).min(max - 1);
                let hi = (center + r.below(3)).clamp(lo + 1, max);
                OccPat::Range(
                    format!("{lo:0w$}").into_bytes(),
                    format!("{hi:0w$}").into_bytes(),
                )
            }
            4 => match generate::occ(r) {
                Some(o) if o != b"00" => OccPat::Exact(o),
                _ => OccPat::None,
            },
            _ => match occ {
                None => OccPat::None,
                Some(b"00") => OccPat::None,
                Some(o) => OccPat::Exact(o.to_vec()),
            },
        }
    }

    pub fn matches(&self, occ: Option<&[u8]>) -> bool {
        match (self, occ) {
            (OccPat::Any, _) => true,
            (OccPat::None, None) => true,
            (OccPat::None, Some(o)) => o == b"00",
            (OccPat::Exact(_), None) => false,
            (OccPat::Exact(x), Some(o)) => x == o,
            (OccPat::Range(..), None) => false,
            (OccPat::Range(a, b), Some(o)) => {
                let n = |x: &[u8]| -> u32 {
                    std::str::from_utf8(x).unwrap().parse().unwrap()
                };
                o.len() == a.len() && n(a) <= n(o) && n(o) <= n(b)
            }
        }
    }

    pub fn text(&self, r: &mut Rng) -> String {
        match self {
            OccPat::Any => "/*".into(),
            OccPat::None => if r.chance(1, 6) { "/00" } else { "" }.into(),
            OccPat::Exact(o) => format!("/{}", std::str::from_utf8(o).unwrap()),
            OccPat::Range(a, b) => format!(
                "/{}-{}",
                std::str::from_utf8(a).unwrap(),
                std::str::from_utf8(b).unwrap()
            ),
        }
    }
}

pub fn field_matches(t: &TagPat, o: &OccPat, f: &Fld) -> bool {
    t.matches(&f.tag) && o.matches(f.occ.as_deref())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Codes {
    One(u8),
    All,
    Set(Vec<(u8, u8)>),
}

impl Codes {
    pub fn random(r: &mut Rng) -> Codes {
        match r.below(8) {
            0 => Codes::All,
            1 | 2 => {
                let n = r.range(1, 3);
                Codes::Set(
                    (0..n)
                        .map(|_| {
                            let a = generate::code(r);
                            let b = generate::code(r);
                            if a < b && r.chance(1, 3) { (a, b) } else { (a, a) }
                        })
                        .collect(),
                )
            }
            _ => Codes::One(generate::code(r)),
        }
    }

    pub fn contains(&self, c: u8) -> bool {
        match self {
            Codes::One(x) => *x == c,
            Codes::All => true,
            Codes::Set(s) => s.iter().any(|(a, b)| *a <= c && c <= *b),
        }
    }

    pub fn text(&self) -> String {
        match self {
            Codes::One(c) => (*c as char).to_string(),
            Codes::All => "*".into(),
            Codes::Set(items) => {
                let mut s = "[".to_string();
                for (a, b) in items {
                    s.push(*a as char);
                    if a != b {
                        s.push('-');
                        s.push(*b as char);
                    }
                }
                s.push(']');
                s
            }
        }
    }

    /// The notation after a `$`, if there is one.
    pub fn dollar(&self) -> Option<String> {
        match self {
            Codes::One(c) => Some((*c as char).to_string()),
            Codes::All => Some("*".into()),
            Codes::Set(s) if s.iter().all(|(a, b)| a == b) => {
                Some(s.iter().map(|(a, _)| *a as char).collect())
            }
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- subfield conditions

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Quant {
    Any,
    All,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum StrOp {
    Eq,
    Ne,
    StartsWith,
    StartsNotWith,
    EndsWith,
    EndsNotWith,
    Similar,
}
pub const STR_OPS: [(StrOp, &str); 7] = [
    (StrOp::Eq, "=="),
    (StrOp::Ne, "!="),
    (StrOp::StartsWith, "=^"),
    (StrOp::StartsNotWith, "!^"),
    (StrOp::EndsWith, "=$"),
    (StrOp::EndsNotWith, "!$"),
    (StrOp::Similar, "=*"),
];
pub const NUM_OPS: [&str; 6] = ["==", "!=", ">=", ">", "<=", "<"];

pub fn num_op(op: &str, a: usize, b: usize) -> bool {
    match op {
        "==" => a == b,
        "!=" => a != b,
        ">=" => a >= b,
        ">" => a > b,
        "<=" => a <= b,
        "<" => a < b,
        _ => unreachable!(),
    }
}

/// Number of items of a list.
fn items(r: &mut Rng) -> usize {
    if r.chance(1, 10) { r.range(4, 20) } else { r.range(1, 3) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum SubCond {
    Rel { quant: Quant, codes: Codes, op: StrOp, value: String },
    Contains { quant: Quant, codes: Codes, values: Vec<String>, list: bool },
    In { quant: Quant, codes: Codes, values: Vec<String>, not: bool, list: bool },
    Regex { quant: Quant, codes: Codes, res: Vec<String>, not: bool, list: bool },
    Card { codes: Codes, op: &'static str, n: usize },
    Exists { codes: Codes },
    Not(Box<SubCond>),
    And(Vec<SubCond>),
    Xor(Vec<SubCond>),
    Or(Vec<SubCond>),
}

/// A text to compare with: something that occurs in the data or is close.
pub fn needle(r: &mut Rng) -> String {
    let o = Opts { utf8: true, clean: true, ..Default::default() };
    let s = generate::text(r, &o);
    let chars: Vec<char> = s.chars().collect();
    match r.below(8) {
        0 if !chars.is_empty() => {
            let k = r.below(chars.len());
            chars[..k].iter().collect()
        }
        1 if !chars.is_empty() => {
            let k = r.below(chars.len());
            chars[k..].iter().collect()
        }
        2 => s
            .chars()
            .flat_map(|c| {
                if c.is_lowercase() {
                    c.to_uppercase().collect::<Vec<_>>()
                } else {
                    c.to_lowercase().collect()
                }
            })
            .collect(),
        3 if !chars.is_empty() => {
            let mut c = chars.clone();
            let k = r.below(c.len());
            c[k] = 'q';
            c.into_iter().collect()
        }
        _ => s,
    }
}

pub fn escape_regex(s: &str) -> String {
    regex::escape(s)
}

/// Expressions whose meaning depends on how they are compiled.
pub const REGEXES: [&str; 40] = [
    "a.b", "^a.b$", "^.$", "^.*$", "^.+$", "a.*b", "(?s)a.b", "(?m)^b", "(?m)a$", "^b", "a$", "\\s",
    "^\\S+$", "^\\w+$", "\\W", "^\\d+$", "\\D", "\\bb\\b", "\\Ba", "^[[:alpha:]]+$", "\\p{L}",
    "^\\p{Lu}", "[^a]", "^[^a]$", "a{2,}", "^x*$", "(?-u)\\xff", "\\x{e9}", "é", "(?i)é", "^(?:a|b)?$",
    "a b", "(?x)a b", "a+?b", "^[a-c]+$", "[äöü]", "\\.", "^.{2}$", "\\n", "a|^$",
];

fn regex_text(r: &mut Rng) -> String {
    match r.below(14) {
        12 => r.pick(&REGEXES).to_string(),
        13 => {
            // a text with a wildcard in it
            let t = needle(r);
            let n = t.chars().count();
            let k = r.below(n.max(1));
            let body: String = t
                .chars()
                .enumerate()
                .map(|(i, c)| if i == k { ".".to_string() } else { regex::escape(&c.to_string()) })
                .collect();
            if r.bool() { format!("^{body}$") } else { body }
        }
        0 => "^a".into(),
        1 => "b$".into(),
        2 => "^T[pns][1z]?$".into(),
        3 => "[0-9]{4}-\\d\\d".into(),
        4 => "^$".into(),
        5 => ".".into(),
        6 => "(?i)ABC".into(),
        7 => "a|b".into(),
        8 => "^(a|e\u{301}|é)".into(),
        9 => "\\bDer\\b".into(),
        _ => regex::escape(&needle(r)),
    }
}

fn quant(r: &mut Rng) -> Quant {
    if r.chance(1, 4) { Quant::All } else { Quant::Any }
}

impl SubCond {
    pub fn leaf(r: &mut Rng) -> SubCond {
        let codes = Codes::random(r);
        match r.below(12) {
            0..=4 => SubCond::Rel {
                quant: quant(r),
                codes,
                op: r.pick(&STR_OPS).0,
                value: needle(r),
            },
            5 => {
                let list = r.bool();
                let n = if list { items(r) } else { 1 };
                SubCond::Contains {
                    quant: quant(r),
                    codes,
                    values: (0..n).map(|_| needle(r)).collect(),
                    list,
                }
            }
            6 | 7 => {
                let list = r.chance(3, 4);
                let values = if list {
                    (0..items(r)).map(|_| needle(r)).collect()
                } else {
                    let n = r.range(2, 3);
                    (0..n)
                        .map(|_| r.pick(&["a", "b", "A", "é", "1", "x", "2"]).to_string())
                        .collect()
                };
                SubCond::In { quant: quant(r), codes, values, not: r.bool(), list }
            }
            8 => {
                let list = r.bool();
                let n = if list { items(r) } else { 1 };
                SubCond::Regex {
                    quant: quant(r),
                    codes,
                    res: (0..n).map(|_| regex_text(r)).collect(),
                    not: r.bool(),
                    list,
                }
            }
            9 => SubCond::Card {
                codes,
                op: r.pick(&NUM_OPS),
                n: if r.chance(1, 12) { 300 } else { r.below(4) },
            },
            _ => SubCond::Exists { codes },
        }
    }

    pub fn random(r: &mut Rng, depth: usize) -> SubCond {
        if depth == 0 || r.chance(2, 5) {
            return SubCond::leaf(r);
        }
        let n = if r.chance(1, 4) { r.range(2, 5) } else { 2 };
        match r.below(7) {
            0 | 1 => SubCond::And((0..n).map(|_| SubCond::random(r, depth - 1)).collect()),
            2 | 3 => SubCond::Or((0..n).map(|_| SubCond::random(r, depth - 1)).collect()),
            4 | 5 => SubCond::Xor((0..n).map(|_| SubCond::random(r, depth - 1)).collect()),
            _ => SubCond::Not(Box::new(SubCond::random(r, depth - 1))),
        }
    }

    pub fn eval(&self, subs: &[Sub], o: &MOpts) -> bool {
        let q = |quant: &Quant, codes: &Codes, f: &dyn Fn(&[u8]) -> bool| {
            let mut it = subs.iter().filter(|s| codes.contains(s.code));
            match quant {
                Quant::Any => it.any(|s| f(&s.value)),
                Quant::All => it.all(|s| f(&s.value)),
            }
        };
        let fold = |v: &[u8]| -> Vec<u8> {
            if o.ignore_case { text::lowercase(v) } else { v.to_vec() }
        };
        match self {
            SubCond::Rel { quant, codes, op, value } => {
                let rhs = fold(value.as_bytes());
                q(quant, codes, &|v| {
                    let lhs = fold(v);
                    match op {
                        StrOp::Eq => lhs == rhs,
                        StrOp::Ne => lhs != rhs,
                        StrOp::StartsWith => lhs.starts_with(&rhs),
                        StrOp::StartsNotWith => !lhs.starts_with(&rhs),
                        StrOp::EndsWith => lhs.ends_with(&rhs),
                        StrOp::EndsNotWith => !lhs.ends_with(&rhs),
                        StrOp::Similar => {
                            let l = String::from_utf8_lossy(v).into_owned();
                            let (l, r) = if o.ignore_case {
                                (l.to_lowercase(), value.to_lowercase())
                            } else {
                                (l, value.clone())
                            };
                            text::similarity(&l, &r) > o.threshold
                        }
                    }
                })
            }
            SubCond::Contains { quant, codes, values, .. } => q(quant, codes, &|v| {
                let v = fold(v);
                values.iter().any(|n| text::contains(&v, &fold(n.as_bytes())))
            }),
            SubCond::In { quant, codes, values, not, .. } => q(quant, codes, &|v| {
                let v = fold(v);
                values.iter().any(|n| v == fold(n.as_bytes())) != *not
            }),
            SubCond::Regex { quant, codes, res, not, .. } => {
                let res: Vec<_> = res
                    .iter()
                    .map(|s| {
                        regex::bytes::RegexBuilder::new(s)
                            .case_insensitive(o.ignore_case)
                            .build()
                            .unwrap()
                    })
                    .collect();
                q(quant, codes, &|v| res.iter().any(|re| re.is_match(v)) != *not)
            }
            SubCond::Card { codes, op, n } => num_op(
                op,
                subs.iter().filter(|s| codes.contains(s.code)).count(),
                *n,
            ),
            SubCond::Exists { codes } => subs.iter().any(|s| codes.contains(s.code)),
            SubCond::Not(c) => !c.eval(subs, o),
            SubCond::And(cs) => cs.iter().all(|c| c.eval(subs, o)),
            SubCond::Or(cs) => cs.iter().any(|c| c.eval(subs, o)),
            SubCond::Xor(cs) => {
                cs.iter().filter(|c| c.eval(subs, o)).count() % 2 == 1
            }
        }
    }

    pub fn is_leaf(&self) -> bool {
        !matches!(
            self,
            SubCond::Not(_) | SubCond::And(_) | SubCond::Or(_) | SubCond::Xor(_)
        )
    }

    fn prec(&self) -> u8 {
        match self {
            SubCond::Or(_) => 0,
            SubCond::Xor(_) => 1,
            SubCond::And(_) => 2,
            _ => 3,
        }
    }

    /// Text of the condition; leaves get no surrounding white space.
    pub fn text(&self, r: &mut Rng, st: &Style) -> String {
        self.render(r, st, 0)
    }

    fn paren(r: &mut Rng, st: &Style, s: String) -> String {
        format!("({}{s}{})", ws(r, st), ws(r, st))
    }

    fn render(&self, r: &mut Rng, st: &Style, min: u8) -> String {
        let extra = st.parens && r.chance(1, 5);
        if self.prec() < min || extra {
            let s = self.render_bare(r, st);
            let s = SubCond::paren(r, st, s);
            return if extra && r.chance(1, 3) { SubCond::paren(r, st, s) } else { s };
        }
        self.render_bare(r, st)
    }

    fn render_bare(&self, r: &mut Rng, st: &Style) -> String {
        match self {
            SubCond::Or(cs) => {
                let items: Vec<_> = cs.iter().map(|c| c.render(r, st, 1)).collect();
                join(r, st, items, &["||"])
            }
            SubCond::Xor(cs) => {
                let items: Vec<_> = cs.iter().map(|c| c.render(r, st, 2)).collect();
                join(r, st, items, &["^", "XOR"])
            }
            SubCond::And(cs) => {
                let items: Vec<_> = cs.iter().map(|c| c.render(r, st, 3)).collect();
                join(r, st, items, &["&&"])
            }
            SubCond::Not(c) => {
                let inner = match **c {
                    SubCond::Exists { .. } | SubCond::Not(_) => {
                        if r.chance(1, 4) {
                            let s = c.render_bare(r, st);
                            SubCond::paren(r, st, s)
                        } else {
                            c.render_bare(r, st)
                        }
                    }
                    _ => {
                        let s = c.render(r, st, 0);
                        SubCond::paren(r, st, s)
                    }
                };
                format!("!{}{inner}", ws(r, st))
            }
            leaf => leaf.leaf_text(r, st),
        }
    }

    pub fn leaf_text(&self, r: &mut Rng, st: &Style) -> String {
        let qt = |r: &mut Rng, q: &Quant| match q {
            Quant::All => format!("ALL{}", r.pick(&[" ", "  ", " \n"])),
            Quant::Any => {
                if r.chance(1, 4) {
                    format!("ANY{}", r.pick(&[" ", "  "]))
                } else {
                    String::new()
                }
            }
        };
        match self {
            SubCond::Rel { quant, codes, op, value } => {
                let q = qt(r, quant);
                let c = match codes.dollar() {
                    Some(d) if st.compat && r.bool() => {
                        format!("${}{d}", ws(r, st))
                    }
                    _ => codes.text(),
                };
                let op = STR_OPS.iter().find(|x| x.0 == *op).unwrap().1;
                format!(
                    "{q}{c}{}{op}{}{}",
                    sp(r, st),
                    sp(r, st),
                    literal(r, st, value)
                )
            }
            SubCond::Contains { quant, codes, values, list } => {
                let q = qt(r, quant);
                let c = match codes.dollar() {
                    Some(d) if st.compat && r.bool() => {
                        format!("${}{d}", ws(r, st))
                    }
                    _ => codes.text(),
                };
                let v = if *list {
                    list_text(r, st, values)
                } else {
                    literal(r, st, &values[0])
                };
                format!("{q}{c}{}=?{}{v}", sp(r, st), sp(r, st))
            }
            SubCond::In { quant, codes, values, not, list } => {
                let q = qt(r, quant);
                let n = if *not {
                    format!("not{}", r.pick(&[" ", "  "]))
                } else {
                    String::new()
                };
                let (v, gap) = if *list {
                    (list_text(r, st, values), sp(r, st))
                } else {
                    (literal(r, st, &values.concat()), sp(r, st))
                };
                format!("{q}{} {n}in{gap}{v}", codes.text())
            }
            SubCond::Regex { quant, codes, res, not, list } => {
                let q = qt(r, quant);
                let v = if *list {
                    list_text(r, st, res)
                } else {
                    literal(r, st, &res[0])
                };
                let op = if *not { "!~" } else { "=~" };
                format!("{q}{}{}{op}{}{v}", codes.text(), sp(r, st), sp(r, st))
            }
            SubCond::Card { codes, op, n } => {
                let n = if r.chance(1, 5) { format!("0{n}") } else { n.to_string() };
                format!(
                    "#{}{}{}{op}{}{n}",
                    ws(r, st),
                    codes.text(),
                    sp(r, st),
                    sp(r, st)
                )
            }
            SubCond::Exists { codes } => format!("{}?", codes.text()),
            _ => unreachable!(),
        }
    }

    pub fn kinds(&self, out: &mut Vec<&'static str>) {
        match self {
            SubCond::Rel { op, quant, .. } => {
                out.push(STR_OPS.iter().find(|x| x.0 == *op).unwrap().1);
                if *quant == Quant::All {
                    out.push("ALL");
                }
            }
            SubCond::Contains { .. } => out.push("=?"),
            SubCond::In { not, .. } => out.push(if *not { "not in" } else { "in" }),
            SubCond::Regex { not, .. } => out.push(if *not { "!~" } else { "=~" }),
            SubCond::Card { .. } => out.push("#"),
            SubCond::Exists { .. } => out.push("?"),
            SubCond::Not(c) => {
                out.push("!");
                c.kinds(out)
            }
            SubCond::And(c) => {
                out.push("&&");
                c.iter().for_each(|c| c.kinds(out))
            }
            SubCond::Or(c) => {
                out.push("||");
                c.iter().for_each(|c| c.kinds(out))
            }
            SubCond::Xor(c) => {
                out.push("^");
                c.iter().for_each(|c| c.kinds(out))
            }
        }
    }
}

fn list_text(r: &mut Rng, st: &Style, values: &[String]) -> String {
    let mut s = format!("[{}", ws(r, st));
    for (i, v) in values.iter().enumerate() {
        if i > 0 {
            s.push_str(ws(r, st));
            s.push(',');
            s.push_str(sp(r, st));
        }
        s.push_str(&literal(r, st, v));
    }
    if r.chance(1, 5) {
        s.push_str(ws(r, st));
        s.push(',');
    }
    s.push_str(ws(r, st));
    s.push(']');
    s
}

fn join(r: &mut Rng, st: &Style, items: Vec<String>, ops: &[&str]) -> String {
    let mut s = String::new();
    for (i, it) in items.iter().enumerate() {
        if i > 0 {
            s.push_str(sp(r, st));
            s.push_str(r.pick(ops));
            s.push_str(sp(r, st));
        }
        s.push_str(it);
    }
    s
}

// ---------------------------------------------------------------- field conditions

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    /// `012A.a == 'x'` (leaf condition) or `012A{ ... }`
    Subs { quant: Quant, tag: TagPat, occ: OccPat, cond: SubCond },
    Exists { tag: TagPat, occ: OccPat },
    Card { tag: TagPat, occ: OccPat, cond: Option<SubCond>, op: &'static str, n: usize },
    Not(Box<Cond>),
    And(Vec<Cond>),
    Xor(Vec<Cond>),
    Or(Vec<Cond>),
}

pub fn random_pattern(r: &mut Rng) -> (TagPat, OccPat) {
    let t = generate::tag(r);
    let o = generate::occ(r);
    (TagPat::near(r, &t, 30), OccPat::near(r, o.as_deref()))
}

impl Cond {
    pub fn leaf(r: &mut Rng) -> Cond {
        let (tag, occ) = random_pattern(r);
        match r.below(10) {
            0 | 1 => Cond::Exists { tag, occ },
            2 => Cond::Card {
                tag,
                occ,
                cond: if r.bool() { Some(SubCond::random(r, 1)) } else { None },
                op: r.pick(&NUM_OPS),
                n: if r.chance(1, 12) { 256 } else { r.below(4) },
            },
            3..=5 => Cond::Subs { quant: quant(r), tag, occ, cond: SubCond::leaf(r) },
            _ => Cond::Subs { quant: quant(r), tag, occ, cond: SubCond::random(r, 2) },
        }
    }

    pub fn random(r: &mut Rng, depth: usize) -> Cond {
        if depth == 0 || r.chance(2, 5) {
            return Cond::leaf(r);
        }
        let n = if r.chance(1, 4) { r.range(2, 5) } else { 2 };
        match r.below(7) {
            0 | 1 => Cond::And((0..n).map(|_| Cond::random(r, depth - 1)).collect()),
            2 | 3 => Cond::Or((0..n).map(|_| Cond::random(r, depth - 1)).collect()),
            4 | 5 => Cond::Xor((0..n).map(|_| Cond::random(r, depth - 1)).collect()),
            _ => Cond::Not(Box::new(Cond::random(r, depth - 1))),
        }
    }

    pub fn eval(&self, rec: &Rec, o: &MOpts) -> bool {
        let sel = |t: &TagPat, oc: &OccPat| {
            rec.fields
                .iter()
                .filter(|f| field_matches(t, oc, f))
                .collect::<Vec<_>>()
        };
        match self {
            Cond::Subs { quant, tag, occ, cond } => {
                let fs = sel(tag, occ);
                match quant {
                    Quant::Any => fs.iter().any(|f| cond.eval(&f.subs, o)),
                    Quant::All => fs.iter().all(|f| cond.eval(&f.subs, o)),
                }
            }
            Cond::Exists { tag, occ } => !sel(tag, occ).is_empty(),
            Cond::Card { tag, occ, cond, op, n } => {
                let k = sel(tag, occ)
                    .iter()
                    .filter(|f| cond.as_ref().is_none_or(|c| c.eval(&f.subs, o)))
                    .count();
                num_op(op, k, *n)
            }
            Cond::Not(c) => !c.eval(rec, o),
            Cond::And(cs) => cs.iter().all(|c| c.eval(rec, o)),
            Cond::Or(cs) => cs.iter().any(|c| c.eval(rec, o)),
            Cond::Xor(cs) => cs.iter().filter(|c| c.eval(rec, o)).count() % 2 == 1,
        }
    }

    fn prec(&self) -> u8 {
        match self {
            Cond::Or(_) => 0,
            Cond::Xor(_) => 1,
            Cond::And(_) => 2,
            _ => 3,
        }
    }

    pub fn text(&self, r: &mut Rng, st: &Style) -> String {
        self.render(r, st, 0)
    }

    fn render(&self, r: &mut Rng, st: &Style, min: u8) -> String {
        let extra = st.parens && r.chance(1, 5);
        if self.prec() < min || extra {
            let s = self.render_bare(r, st);
            let s = SubCond::paren(r, st, s);
            return if extra && r.chance(1, 3) { SubCond::paren(r, st, s) } else { s };
        }
        self.render_bare(r, st)
    }

    fn render_bare(&self, r: &mut Rng, st: &Style) -> String {
        match self {
            Cond::Or(cs) => {
                let items: Vec<_> = cs.iter().map(|c| c.render(r, st, 1)).collect();
                join(r, st, items, &["||"])
            }
            Cond::Xor(cs) => {
                let items: Vec<_> = cs.iter().map(|c| c.render(r, st, 2)).collect();
                join(r, st, items, &["^", "XOR"])
            }
            Cond::And(cs) => {
                let items: Vec<_> = cs.iter().map(|c| c.render(r, st, 3)).collect();
                join(r, st, items, &["&&"])
            }
            Cond::Not(c) => {
                let bare = match **c {
                    Cond::Exists { .. } | Cond::Not(_) => r.chance(3, 4),
                    Cond::Subs { ref cond, .. } => {
                        // the {}-notation may follow `!` directly
                        if r.bool() {
                            let body = c.subs_text(r, st, true);
                            return format!("!{}{body}", ws(r, st));
                        }
                        if matches!(cond, SubCond::Exists { .. }) && r.bool() {
                            let body = c.subs_text(r, st, false);
                            return format!("!{}{body}", ws(r, st));
                        }
                        false
                    }
                    _ => false,
                };
                let inner = if bare {
                    c.render_bare(r, st)
                } else {
                    let s = c.render(r, st, 0);
                    SubCond::paren(r, st, s)
                };
                format!("!{}{inner}", ws(r, st))
            }
            Cond::Exists { tag, occ } => {
                format!("{}{}{}?", tag.text(), occ.text(r), ws(r, st))
            }
            Cond::Card { tag, occ, cond, op, n } => {
                let body = match cond {
                    Some(c) => {
                        let b = c.text(r, st);
                        format!("{}{{{}{b}{}}}", ws(r, st), ws(r, st), ws(r, st))
                    }
                    None => String::new(),
                };
                format!(
                    "#{}{}{}{body}{}{op}{}{n}",
                    ws(r, st),
                    tag.text(),
                    occ.text(r),
                    sp(r, st),
                    sp(r, st)
                )
            }
            Cond::Subs { cond, .. } => {
                let curly = !cond.is_leaf() || r.bool();
                self.subs_text(r, st, curly)
            }
        }
    }

    fn subs_text(&self, r: &mut Rng, st: &Style, curly: bool) -> String {
        let Cond::Subs { quant, tag, occ, cond } = self else { unreachable!() };
        let q = match quant {
            Quant::All => format!("ALL{}", if st.ws { *r.pick(&[" ", "", "  "]) } else { " " }),
            Quant::Any => {
                if r.chance(1, 4) {
                    "ANY ".into()
                } else {
                    String::new()
                }
            }
        };
        let (q, st0) = (q, st);
        let head = format!("{q}{}{}", tag.text(), occ.text(r));
        if curly {
            let body = cond.text(r, st);
            return format!("{head}{}{{{}{body}{}}}", ws(r, st0), ws(r, st0), ws(r, st0));
        }
        // dot or dollar notation; no `$` inside of it
        let inner = Style { compat: false, ..st.clone() };
        let body = cond.leaf_text(r, &inner);
        let sep = if st.compat && r.bool() { '$' } else { '.' };
        format!("{head}{sep}{body}")
    }

    pub fn kinds(&self, out: &mut Vec<&'static str>) {
        match self {
            Cond::Subs { quant, cond, .. } => {
                out.push(if *quant == Quant::All { "F-ALL" } else { "F-ANY" });
                cond.kinds(out)
            }
            Cond::Exists { .. } => out.push("F?"),
            Cond::Card { cond, .. } => {
                out.push("F#");
                if let Some(c) = cond {
                    c.kinds(out)
                }
            }
            Cond::Not(c) => {
                out.push("F!");
                c.kinds(out)
            }
            Cond::And(c) => {
                out.push("F&&");
                c.iter().for_each(|c| c.kinds(out))
            }
            Cond::Or(c) => {
                out.push("F||");
                c.iter().for_each(|c| c.kinds(out))
            }
            Cond::Xor(c) => {
                out.push("F^");
                c.iter().for_each(|c| c.kinds(out))
            }
        }
    }
}

/// A condition about fields that the record is likely to have.
pub fn cond_for(r: &mut Rng, rec: &Rec, depth: usize) -> Cond {
    let mut c = Cond::random(r, depth);
    aim(r, &mut c, rec);
    c
}

fn aim(r: &mut Rng, c: &mut Cond, rec: &Rec) {
    match c {
        Cond::Subs { tag, occ, cond, .. } => {
            if r.chance(4, 5) && !rec.fields.is_empty() {
                let f = r.pick(&rec.fields).clone();
                *tag = TagPat::near(r, &f.tag, 25);
                *occ = OccPat::near(r, f.occ.as_deref());
                aim_sub(r, cond, &f);
            }
        }
        Cond::Exists { tag, occ } => {
            if r.chance(1, 2) && !rec.fields.is_empty() {
                let f = r.pick(&rec.fields);
                *tag = TagPat::near(r, &f.tag.clone(), 25);
                *occ = OccPat::near(r, f.occ.clone().as_deref());
            }
        }
        Cond::Card { tag, occ, cond, .. } => {
            if r.chance(4, 5) && !rec.fields.is_empty() {
                let f = r.pick(&rec.fields).clone();
                *tag = TagPat::near(r, &f.tag, 50);
                *occ = OccPat::near(r, f.occ.as_deref());
                if let Some(c) = cond {
                    aim_sub(r, c, &f)
                }
            }
        }
        Cond::Not(c) => aim(r, c, rec),
        Cond::And(cs) | Cond::Or(cs) | Cond::Xor(cs) => {
            cs.iter_mut().for_each(|c| aim(r, c, rec))
        }
    }
}

/// Makes the condition talk about codes and values of the field.
pub fn aim_sub(r: &mut Rng, c: &mut SubCond, f: &Fld) {
    if f.subs.is_empty() || r.chance(1, 5) {
        return;
    }
    let s = r.pick(&f.subs).clone();
    let close = |r: &mut Rng, code: u8, codes: &mut Codes| {
        if !codes.contains(code) && r.chance(4, 5) {
            *codes = match r.below(3) {
                0 => Codes::Set(vec![(code, code), (b'a', b'a')]),
                _ => Codes::One(code),
            }
        }
    };
    let text = String::from_utf8(s.value.clone()).ok().filter(|t| !t.contains('\0') && t.len() < 3000);
    match c {
        SubCond::Rel { codes, value, op, .. } => {
            close(r, s.code, codes);
            if let Some(t) = text
                && r.chance(2, 3)
            {
                let chars: Vec<char> = t.chars().collect();
                let k = r.below(chars.len() + 1);
                *value = match op {
                    StrOp::StartsWith | StrOp::StartsNotWith => chars[..k].iter().collect(),
                    StrOp::EndsWith | StrOp::EndsNotWith => chars[k..].iter().collect(),
                    _ => t,
                };
                if r.chance(1, 3) {
                    *value = match r.below(4) {
                        0 => value.to_uppercase(),
                        1 => value.to_lowercase(),
                        2 => format!("{value}x"),
                        _ => value.chars().skip(1).collect(),
                    };
                }
            }
        }
        SubCond::Contains { codes, values, .. } => {
            close(r, s.code, codes);
            if let Some(t) = text
                && r.chance(2, 3)
            {
                let chars: Vec<char> = t.chars().collect();
                let a = r.below(chars.len() + 1);
                let b = r.range(a, chars.len());
                let k = r.below(values.len());
                values[k] = chars[a..b].iter().collect();
                if r.chance(1, 4) {
                    values[k] = values[k].to_uppercase();
                }
            }
        }
        SubCond::In { codes, values, list, .. } => {
            close(r, s.code, codes);
            if let Some(t) = text
                && *list
                && r.chance(2, 3)
            {
                let k = r.below(values.len());
                values[k] = t;
                if r.chance(1, 4) {
                    values[k] = values[k].to_uppercase();
                }
            }
        }
        SubCond::Regex { codes, res, .. } => {
            close(r, s.code, codes);
            if let Some(t) = text
                && r.chance(1, 2)
            {
                let k = r.below(res.len());
                res[k] = match r.below(3) {
                    0 => format!("^{}$", regex::escape(&t)),
                    1 => format!("(?-i){}", regex::escape(&t)),
                    _ => regex::escape(&t.to_uppercase()),
                };
            }
        }
        SubCond::Card { codes, .. } | SubCond::Exists { codes } => {
            if r.bool() {
                close(r, s.code, codes)
            }
        }
        SubCond::Not(c) => aim_sub(r, c, f),
        SubCond::And(cs) | SubCond::Or(cs) | SubCond::Xor(cs) => {
            cs.iter_mut().for_each(|c| aim_sub(r, c, f))
        }
    }
}
