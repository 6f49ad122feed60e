//! Format strings.
use crate::expr::*;
use crate::generate;
use crate::rec::*;
use crate::rng::Rng;
use crate::text;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Mods {
    pub lower: bool,
    pub upper: bool,
    pub trim: bool,
    pub ws: bool,
    pub over: bool,
    pub present: bool,
}

impl Mods {
    fn random(r: &mut Rng) -> Mods {
        if r.chance(2, 3) {
            return Mods::default();
        }
        let mut m = Mods {
            lower: r.chance(1, 4),
            upper: r.chance(1, 4),
            trim: r.chance(1, 3),
            ws: r.chance(1, 4),
            over: r.chance(1, 3),
            present: true,
        };
        if !(m.lower || m.upper || m.trim || m.ws || m.over) {
            m.trim = true;
        }
        m
    }

    fn text(&self, r: &mut Rng) -> String {
        if !self.present {
            return String::new();
        }
        let mut c = vec![];
        for (on, ch) in [
            (self.lower, 'l'),
            (self.upper, 'u'),
            (self.trim, 't'),
            (self.ws, 'w'),
            (self.over, 'o'),
        ] {
            if on {
                c.push(ch)
            }
        }
        r.shuffle(&mut c);
        if r.chance(1, 6) {
            c.push(c[0]);
        }
        format!("?{} ", c.into_iter().collect::<String>())
    }

    fn apply(&self, mut v: Vec<u8>) -> Vec<u8> {
        if self.over {
            v = drop_at(&v);
        }
        if self.trim {
            v = text::trim(&v);
        }
        if self.ws {
            v.retain(|b| *b != b' ');
        }
        if self.lower {
            v = text::lowercase(&v);
        }
        if self.upper {
            v = text::uppercase(&v);
        }
        v
    }
}

fn drop_at(v: &[u8]) -> Vec<u8> {
    match v.iter().position(|b| *b == b'@') {
        Some(i) => [&v[..i], &v[i + 1..]].concat(),
        None => v.to_vec(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bound {
    One,
    Upto(usize),
    All,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Frag {
    Value {
        mods: Mods,
        prefix: Option<String>,
        codes: Codes,
        bound: Bound,
        suffix: Option<String>,
    },
    /// inner is a value or a list, never a group
    Group { mods: Mods, inner: Box<Frag> },
    AndThen(Vec<Frag>),
    Cons(Vec<Frag>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Format {
    pub tag: TagPat,
    pub occ: OccPat,
    pub frag: Frag,
    pub cond: Option<SubCond>,
}

fn affix(r: &mut Rng) -> Option<String> {
    if r.chance(3, 5) {
        return None;
    }
    Some(
        r.pick(&[
            ", ", " ", "(", ")", "a", "É", "x y", "@", "", "'", "\"", " : ",
            "Ab", "ß", "<", "{", "|",
        ])
        .to_string(),
    )
}

impl Frag {
    fn value(r: &mut Rng, f: Option<&Fld>) -> Frag {
        let mut codes = Codes::random(r);
        if let Some(f) = f
            && !f.subs.is_empty()
            && r.chance(3, 4)
        {
            let c = r.pick(&f.subs).code;
            if !codes.contains(c) {
                codes = Codes::One(c);
            }
        }
        Frag::Value {
            mods: Mods::random(r),
            prefix: affix(r),
            codes,
            bound: match r.below(6) {
                0 | 1 => Bound::All,
                2 => Bound::Upto(r.below(4)),
                3 => Bound::Upto(2),
                _ => Bound::One,
            },
            suffix: affix(r),
        }
    }

    fn item(r: &mut Rng, f: Option<&Fld>, depth: usize) -> Frag {
        if depth == 0 || r.chance(2, 3) {
            return Frag::value(r, f);
        }
        let inner = match r.below(3) {
            0 => Frag::value(r, f),
            _ => Frag::list(r, f, depth - 1),
        };
        let mut g = Frag::Group { mods: Mods::random(r), inner: Box::new(inner) };
        g.fix();
        g
    }

    fn and_then(r: &mut Rng, f: Option<&Fld>, depth: usize) -> Frag {
        let n = r.range(2, 3);
        Frag::AndThen((0..n).map(|_| Frag::item(r, f, depth)).collect())
    }

    fn list(r: &mut Rng, f: Option<&Fld>, depth: usize) -> Frag {
        if r.bool() {
            return Frag::and_then(r, f, depth);
        }
        let n = r.range(2, 4);
        Frag::Cons(
            (0..n)
                .map(|_| {
                    if r.chance(1, 3) {
                        Frag::and_then(r, f, depth)
                    } else {
                        Frag::item(r, f, depth)
                    }
                })
                .collect(),
        )
    }

    pub fn random(r: &mut Rng, f: Option<&Fld>, depth: usize) -> Frag {
        match r.below(3) {
            0 => Frag::item(r, f, depth),
            _ => Frag::list(r, f, depth),
        }
    }

    /// A modifier directly after `(` belongs to the group: a group without
    /// modifier must not start with a value that has one.
    fn fix(&mut self) {
        if let Frag::Group { mods, inner } = self
            && !mods.present
        {
            inner.clear_first();
        }
    }

    fn clear_first(&mut self) {
        match self {
            Frag::Value { mods, .. } => *mods = Mods::default(),
            Frag::Group { .. } => (),
            Frag::AndThen(f) | Frag::Cons(f) => f[0].clear_first(),
        }
    }

    pub fn text(&self, r: &mut Rng, st: &Style) -> String {
        let sep = |r: &mut Rng, items: Vec<String>, op: &str| {
            let mut s = String::new();
            for (i, it) in items.into_iter().enumerate() {
                if i > 0 {
                    s.push_str(r.pick(&["", " ", "  "]));
                    s.push_str(op);
                    s.push_str(r.pick(&["", " ", "\n"]));
                }
                s.push_str(&it);
            }
            s
        };
        match self {
            Frag::Value { mods, prefix, codes, bound, suffix } => {
                let mut s = mods.text(r);
                if let Some(p) = prefix {
                    s.push_str(&literal(r, st, p));
                    s.push_str(ws(r, st));
                }
                s.push_str(&codes.text());
                match bound {
                    Bound::One => (),
                    Bound::All => s.push_str(".."),
                    Bound::Upto(n) => s.push_str(&format!("..{n}")),
                }
                if let Some(x) = suffix {
                    s.push_str(ws(r, st));
                    s.push_str(&literal(r, st, x));
                }
                s
            }
            Frag::Group { mods, inner } => {
                let m = mods.text(r);
                let i = inner.text(r, st);
                let b = r.pick(&["", "", "", "..", "..1"]);
                format!("({m}{}{i}{}){b}", ws(r, st), ws(r, st))
            }
            Frag::AndThen(f) => {
                let items = f.iter().map(|f| f.text(r, st)).collect();
                sep(r, items, "<$>")
            }
            Frag::Cons(f) => {
                let items = f.iter().map(|f| f.text(r, st)).collect();
                sep(r, items, "<*>")
            }
        }
    }

    /// Written without anything that tells it from a path.
    fn bare(&self) -> bool {
        match self {
            Frag::Value { mods, prefix, bound, suffix, .. } => {
                !mods.present
                    && prefix.is_none()
                    && suffix.is_none()
                    && *bound == Bound::One
            }
            Frag::Group { mods, inner } => !mods.present && inner.bare(),
            _ => false,
        }
    }

    pub fn eval(&self, f: &Fld, strip: bool) -> Vec<u8> {
        match self {
            Frag::Value { mods, prefix, codes, bound, suffix } => {
                let max = match bound {
                    Bound::One => 1,
                    Bound::Upto(n) => *n,
                    Bound::All => usize::MAX,
                };
                let mut out = vec![];
                for s in f.subs.iter().filter(|s| codes.contains(s.code)).take(max) {
                    if let Some(p) = prefix {
                        out.extend_from_slice(p.as_bytes());
                    }
                    if strip {
                        out.extend(drop_at(&s.value));
                    } else {
                        out.extend_from_slice(&s.value);
                    }
                    if let Some(x) = suffix {
                        out.extend_from_slice(x.as_bytes());
                    }
                }
                mods.apply(out)
            }
            Frag::Group { mods, inner } => mods.apply(inner.eval(f, strip)),
            Frag::AndThen(items) => {
                let mut out = vec![];
                for i in items {
                    let v = i.eval(f, strip);
                    if v.is_empty() {
                        break;
                    }
                    out.extend(v);
                }
                out
            }
            Frag::Cons(items) => items.iter().flat_map(|i| i.eval(f, strip)).collect(),
        }
    }

    pub fn kinds(&self, out: &mut Vec<&'static str>) {
        match self {
            Frag::Value { mods, prefix, bound, suffix, .. } => {
                if mods.present {
                    out.push("?mod")
                }
                if prefix.is_some() {
                    out.push("prefix")
                }
                if suffix.is_some() {
                    out.push("suffix")
                }
                out.push(match bound {
                    Bound::One => "one",
                    Bound::All => "..",
                    Bound::Upto(0) => "..0",
                    Bound::Upto(_) => "..n",
                })
            }
            Frag::Group { mods, inner } => {
                out.push(if mods.present { "(?)" } else { "()" });
                inner.kinds(out)
            }
            Frag::AndThen(f) => {
                out.push("<$>");
                f.iter().for_each(|f| f.kinds(out))
            }
            Frag::Cons(f) => {
                out.push("<*>");
                f.iter().for_each(|f| f.kinds(out))
            }
        }
    }
}

impl Format {
    pub fn random(r: &mut Rng, rec: Option<&Rec>) -> Format {
        let f = rec
            .filter(|x| !x.fields.is_empty())
            .map(|x| r.pick(&x.fields).clone());
        let (tag, occ) = match &f {
            Some(f) if r.chance(5, 6) => {
                (TagPat::near(r, &f.tag, 30), OccPat::near(r, f.occ.as_deref()))
            }
            _ => random_pattern(r),
        };
        let cond = if r.chance(1, 4) {
            let mut c = SubCond::random(r, 1);
            if let Some(f) = &f {
                aim_sub(r, &mut c, f);
            }
            Some(c)
        } else {
            None
        };
        Format { tag, occ, frag: Frag::random(r, f.as_ref(), 2), cond }
    }

    /// A format that cannot be read as a path.
    pub fn random_no_path(r: &mut Rng, rec: Option<&Rec>) -> Format {
        loop {
            let f = Format::random(r, rec);
            if !f.frag.bare() {
                return f;
            }
        }
    }

    pub fn text(&self, r: &mut Rng, st: &Style) -> String {
        let b = self.frag.text(r, st);
        let c = match &self.cond {
            Some(c) => {
                let t = c.text(r, st);
                format!("{}|{}{t}", r.pick(&[" ", ""]), r.pick(&[" ", ""]))
            }
            None => String::new(),
        };
        format!(
            "{}{}{}{{{}{b}{c}{}}}",
            self.tag.text(),
            self.occ.text(r),
            ws(r, st),
            ws(r, st),
            ws(r, st)
        )
    }

    pub fn eval(&self, rec: &Rec, strip: bool, o: &MOpts) -> Vec<Vec<u8>> {
        rec.fields
            .iter()
            .filter(|f| field_matches(&self.tag, &self.occ, f))
            .filter(|f| self.cond.as_ref().is_none_or(|c| c.eval(&f.subs, o)))
            .map(|f| self.frag.eval(f, strip))
            .filter(|v| !v.is_empty())
            .collect()
    }
}

pub fn record_for(r: &mut Rng) -> Rec {
    generate::record(r, &generate::Opts::default())
}
