//! Paths and queries.
use crate::expr::*;
use crate::fmt::Format;
use crate::rec::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Path {
    pub tag: TagPat,
    pub occ: OccPat,
    pub codes: Vec<Codes>,
    pub cond: Option<SubCond>,
}

impl Path {
    pub fn random(r: &mut Rng, rec: Option<&Rec>) -> Path {
        let f = rec
            .filter(|x| !x.fields.is_empty())
            .map(|x| r.pick(&x.fields).clone());
        let (tag, occ) = match &f {
            Some(f) if r.chance(5, 6) => {
                (TagPat::near(r, &f.tag, 30), OccPat::near(r, f.occ.as_deref()))
            }
            _ => random_pattern(r),
        };
        let n = match r.below(6) {
            0..=2 => 1,
            3 | 4 => 2,
            _ => 3,
        };
        let codes = (0..n)
            .map(|_| {
                let c = Codes::random(r);
                match &f {
                    Some(f) if !f.subs.is_empty() && r.chance(3, 4) => {
                        let code = r.pick(&f.subs).code;
                        if c.contains(code) { c } else { Codes::One(code) }
                    }
                    _ => c,
                }
            })
            .collect();
        let cond = if r.chance(1, 3) {
            let mut c = SubCond::random(r, 1);
            if let Some(f) = &f {
                aim_sub(r, &mut c, f);
            }
            Some(c)
        } else {
            None
        };
        Path { tag, occ, codes, cond }
    }

    /// A path with a single code group (as partition and checks take).
    pub fn simple(r: &mut Rng, rec: Option<&Rec>) -> Path {
        let mut p = Path::random(r, rec);
        p.codes.truncate(1);
        if r.bool() {
            p.cond = None;
        }
        p
    }

    pub fn text(&self, r: &mut Rng, st: &Style) -> String {
        let t = self.tag.text();
        let o = self.occ.text(r);
        let pre = ws(r, st);
        let post = ws(r, st);
        if self.codes.len() == 1 && self.cond.is_none() && r.chance(2, 3) {
            let c = &self.codes[0];
            if st.compat
                && let Some(d) = c.dollar()
                && r.bool()
            {
                return format!("{pre}{t}{o}{}${}{d}{post}", ws(r, st), ws(r, st));
            }
            return format!("{pre}{t}{o}.{}{post}", c.text());
        }
        let mut codes = String::new();
        for (i, c) in self.codes.iter().enumerate() {
            if i > 0 {
                codes.push_str(ws(r, st));
                codes.push(',');
                codes.push_str(r.pick(&[" ", ""]));
            }
            match c.dollar() {
                Some(d) if st.compat && r.bool() => codes.push_str(&format!("${d}")),
                _ => codes.push_str(&c.text()),
            }
        }
        if r.chance(1, 3) {
            codes = format!("({}{codes}{})", ws(r, st), ws(r, st));
        }
        let cond = match &self.cond {
            Some(c) => {
                let t = c.text(r, st);
                format!("{}|{}{t}", r.pick(&[" ", ""]), r.pick(&[" ", ""]))
            }
            None => String::new(),
        };
        format!("{pre}{t}{o}{}{{{}{codes}{cond}{}}}{post}", ws(r, st), ws(r, st), ws(r, st))
    }

    pub fn fields<'a>(&self, rec: &'a Rec, o: &MOpts) -> Vec<&'a Fld> {
        rec.fields
            .iter()
            .filter(|f| field_matches(&self.tag, &self.occ, f))
            .filter(|f| self.cond.as_ref().is_none_or(|c| c.eval(&f.subs, o)))
            .collect()
    }

    pub fn values(&self, rec: &Rec, o: &MOpts) -> Vec<Vec<u8>> {
        self.fields(rec, o)
            .iter()
            .flat_map(|f| &f.subs)
            .filter(|s| self.codes.iter().any(|c| c.contains(s.code)))
            .map(|s| s.value.clone())
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum QFrag {
    Path(Path),
    Lit(String),
    Format(Format),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Query(pub Vec<QFrag>);

#[derive(Clone, Debug)]
pub struct QOpts {
    pub m: MOpts,
    pub separator: String,
    pub squash: bool,
    pub merge: bool,
}

impl Default for QOpts {
    fn default() -> Self {
        QOpts { m: MOpts::default(), separator: "|".into(), squash: false, merge: false }
    }
}

pub type Rows = Vec<Vec<Vec<u8>>>;

fn product(a: Rows, b: &Rows) -> Rows {
    let mut out = vec![];
    for x in &a {
        for y in b {
            let mut row = x.clone();
            row.extend(y.iter().cloned());
            out.push(row);
        }
    }
    out
}

impl Query {
    pub fn random(r: &mut Rng, rec: Option<&Rec>) -> Query {
        let n = match r.below(8) {
            0..=2 => 1,
            3..=5 => 2,
            6 => 3,
            _ => 4,
        };
        Query(
            (0..n)
                .map(|_| match r.below(8) {
                    0 => QFrag::Lit(needle(r)),
                    1 | 2 => QFrag::Format(Format::random_no_path(r, rec)),
                    _ => QFrag::Path(Path::random(r, rec)),
                })
                .collect(),
        )
    }

    pub fn text(&self, r: &mut Rng, st: &Style) -> String {
        let mut s = String::new();
        for (i, f) in self.0.iter().enumerate() {
            if i > 0 {
                s.push_str(ws(r, st));
                s.push(',');
                s.push_str(r.pick(&[" ", ""]));
            }
            match f {
                QFrag::Path(p) => {
                    // only paths may have leading white space
                    s.push_str(&p.text(r, st))
                }
                QFrag::Lit(l) => s.push_str(&literal(r, st, l)),
                QFrag::Format(f) => s.push_str(&f.text(r, st)),
            }
        }
        s
    }

    pub fn columns(&self) -> usize {
        self.0
            .iter()
            .map(|f| match f {
                QFrag::Path(p) => p.codes.len(),
                _ => 1,
            })
            .sum()
    }

    pub fn eval(&self, rec: &Rec, o: &QOpts) -> Rows {
        let join = |items: Vec<Vec<u8>>| items.join(o.separator.as_bytes());
        let mut rows: Rows = vec![vec![]];
        for f in &self.0 {
            let mut part: Rows = match f {
                QFrag::Lit(l) => vec![vec![l.clone().into_bytes()]],
                QFrag::Format(f) => {
                    let v = f.eval(rec, false, &o.m);
                    if v.is_empty() {
                        vec![vec![vec![]]]
                    } else {
                        v.into_iter().map(|v| vec![v]).collect()
                    }
                }
                QFrag::Path(p) => {
                    let mut all: Rows = vec![];
                    for f in p.fields(rec, &o.m) {
                        let mut sub: Rows = vec![vec![]];
                        for c in &p.codes {
                            let mut vals: Vec<Vec<u8>> = f
                                .subs
                                .iter()
                                .filter(|s| c.contains(s.code))
                                .map(|s| s.value.clone())
                                .collect();
                            if vals.is_empty() {
                                vals.push(vec![]);
                            }
                            if o.squash {
                                vals = vec![join(vals)];
                            }
                            sub = product(sub, &vals.into_iter().map(|v| vec![v]).collect());
                        }
                        all.extend(sub);
                    }
                    if all.is_empty() {
                        all.push(vec![vec![]; p.codes.len()]);
                    }
                    all
                }
            };
            if o.merge {
                let cols = part[0].len();
                part = vec![
                    (0..cols)
                        .map(|c| join(part.iter().map(|row| row[c].clone()).collect()))
                        .collect(),
                ];
            }
            rows = product(rows, &part);
        }
        rows
    }

    /// Number of rows, to avoid blow-ups.
    pub fn size(&self, rec: &Rec, o: &QOpts) -> usize {
        let mut n = 1usize;
        for f in &self.0 {
            let k = Query(vec![f.clone()]).0;
            let k = match &k[0] {
                QFrag::Path(p) => p
                    .fields(rec, &o.m)
                    .iter()
                    .map(|f| {
                        p.codes
                            .iter()
                            .map(|c| f.subs.iter().filter(|s| c.contains(s.code)).count().max(1))
                            .product::<usize>()
                    })
                    .sum::<usize>()
                    .max(1),
                QFrag::Lit(_) => 1,
                QFrag::Format(f) => f.eval(rec, false, &o.m).len().max(1),
            };
            n = n.saturating_mul(k);
        }
        n
    }
}
