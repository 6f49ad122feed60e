//! C10: parsing and printing of expressions.
use std::time::{Duration, Instant};

use model::expr::*;
use model::fmt::Format as MFormat;
use model::generate::{self, Opts};
use model::mon::*;
use model::query::{Path as MPath, QOpts, Query as MQuery};
use model::rec::*;
use model::rng::Rng;
use pica_record::matcher::{OccurrenceMatcher, TagMatcher, field, subfield};
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde_json::json;


/// What can be seen of a parsed expression.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    printed: String,
    /// What it answers on the probe records.
    answers: String,
    /// The same after serialization.
    stored: Option<String>,
    /// Equal to its clone.
    equal: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Sub,
    SubExists,
    SubRelation,
    SubContains,
    SubRegex,
    SubRegexSet,
    SubIn,
    SubCard,
    SubSingleton,
    Field,
    FieldExists,
    FieldSubfields,
    FieldSingleton,
    FieldCard,
    Record,
    Tag,
    Occurrence,
    Path,
    Query,
    Format,
}
use Kind::*;

const KINDS: [Kind; 20] = [
    Sub, SubExists, SubRelation, SubContains, SubRegex, SubRegexSet, SubIn, SubCard, SubSingleton,
    Field, FieldExists, FieldSubfields, FieldSingleton, FieldCard, Record, Tag, Occurrence, Path,
    Query, Format,
];

fn options() -> [MatcherOptions; 2] {
    [MatcherOptions::new(), MatcherOptions::new().case_ignore(true).strsim_threshold(0.4)]
}

trait Ask {
    fn ask(&self, probes: &[RecordRef]) -> String;
}

fn bit(b: bool) -> char {
    if b { '1' } else { '0' }
}

macro_rules! ask_sub {
    ($($t:ty),*) => {$(
        impl Ask for $t {
            fn ask(&self, probes: &[RecordRef]) -> String {
                let mut s = String::new();
                for o in options() {
                    for f in probes.iter().flat_map(|r| r.fields().iter()) {
                        s.push(bit(self.is_match(f.subfields(), &o)));
                    }
                }
                s
            }
        }
    )*};
}
ask_sub!(
    SubfieldMatcher, subfield::ExistsMatcher, subfield::RelationMatcher,
    subfield::ContainsMatcher, subfield::RegexMatcher, subfield::RegexSetMatcher,
    subfield::InMatcher, subfield::CardinalityMatcher, subfield::SingletonMatcher
);
macro_rules! ask_field {
    ($($t:ty),*) => {$(
        impl Ask for $t {
            fn ask(&self, probes: &[RecordRef]) -> String {
                let mut s = String::new();
                for o in options() {
                    for r in probes {
                        s.push(bit(self.is_match(r.fields(), &o)));
                    }
                }
                s
            }
        }
    )*};
}
ask_field!(
    FieldMatcher, field::ExistsMatcher, field::SubfieldsMatcher, field::SingletonMatcher,
    field::CardinalityMatcher
);
impl Ask for RecordMatcher {
    fn ask(&self, probes: &[RecordRef]) -> String {
        let mut s = String::new();
        for o in options() {
            for r in probes {
                s.push(bit(self.is_match(r, &o)));
            }
        }
        s
    }
}
impl Ask for TagMatcher {
    fn ask(&self, probes: &[RecordRef]) -> String {
        probes.iter().flat_map(|r| r.fields().iter()).map(|f| bit(self.is_match(f.tag()))).collect()
    }
}
impl Ask for OccurrenceMatcher {
    fn ask(&self, probes: &[RecordRef]) -> String {
        probes
            .iter()
            .flat_map(|r| r.fields().iter())
            .map(|f| bit(self.is_match(f.occurrence())))
            .collect()
    }
}
impl Ask for pica_record::prelude::Path {
    fn ask(&self, probes: &[RecordRef]) -> String {
        let mut s = String::new();
        for o in options() {
            for r in probes {
                s += &format!("{:?};", r.path(self, &o).map(|v| show(v)).collect::<Vec<_>>());
            }
        }
        s
    }
}
impl Ask for pica_record::prelude::Query {
    fn ask(&self, probes: &[RecordRef]) -> String {
        if self.to_string().matches(',').count() > 5 {
            return String::new(); // the table would be too large
        }
        let mut s = String::new();
        for o in [QueryOptions::new(), QueryOptions::new().squash(true).case_ignore(true)] {
            for r in probes {
                s += &format!("{:?};", r.query(self, &o).into_inner());
            }
        }
        s
    }
}
impl Ask for pica_record::prelude::Format {
    fn ask(&self, probes: &[RecordRef]) -> String {
        let mut s = String::new();
        for o in [FormatOptions::new(), FormatOptions::new().strip_overread_char(true).case_ignore(true)]
        {
            for r in probes {
                s += &format!("{:?};", r.format(self, &o).collect::<Vec<_>>());
            }
        }
        s
    }
}

/// Parses `text` and observes the result; `None` if it is rejected.
fn parse(kind: Kind, text: &str, probes: &[RecordRef]) -> Option<Seen> {
    macro_rules! plain {
        ($m:expr) => {{
            let m = $m.ok()?;
            let answers = m.ask(probes);
            let equal = m == m.clone();
            Some(Seen { printed: m.to_string(), answers, stored: None, equal })
        }};
    }
    macro_rules! full {
        ($t:ty) => {{
            let m = <$t>::new(text).ok()?;
            let answers = m.ask(probes);
            let back: Result<$t, String> = serde_json::to_string(&m)
                .map_err(|e| e.to_string())
                .and_then(|s| serde_json::from_str(&s).map_err(|e| format!("{s}: {e}")));
            let equal = m == m.clone();
            let stored = match &back {
                Ok(b) => b.ask(probes),
                Err(e) => format!("lost: {e}"),
            };
            Some(Seen { printed: m.to_string(), answers, stored: Some(stored), equal })
        }};
    }
    match kind {
        Sub => full!(SubfieldMatcher),
        SubExists => plain!(subfield::ExistsMatcher::new(text)),
        SubRelation => plain!(subfield::RelationMatcher::new(text)),
        SubContains => plain!(subfield::ContainsMatcher::new(text)),
        SubRegex => plain!(subfield::RegexMatcher::new(text)),
        SubRegexSet => plain!(subfield::RegexSetMatcher::new(text)),
        SubIn => plain!(subfield::InMatcher::new(text)),
        SubCard => plain!(subfield::CardinalityMatcher::new(text)),
        SubSingleton => plain!(subfield::SingletonMatcher::new(text)),
        Field => full!(FieldMatcher),
        FieldExists => plain!(field::ExistsMatcher::new(text)),
        FieldSubfields => plain!(field::SubfieldsMatcher::new(text)),
        FieldSingleton => plain!(field::SingletonMatcher::new(text)),
        FieldCard => plain!(field::CardinalityMatcher::new(text)),
        Record => full!(RecordMatcher),
        Tag => full!(TagMatcher),
        Occurrence => plain!(OccurrenceMatcher::new(text)),
        Path => full!(pica_record::prelude::Path),
        Query => full!(pica_record::prelude::Query),
        Format => full!(pica_record::prelude::Format),
    }
}

/// A well-formed text and, if it is cheap to tell, what it must answer.
fn valid(r: &mut Rng, kind: Kind, rec: &Rec) -> String {
    let st = Style::random(r);
    let depth = r.below(4);
    let leaf = |r: &mut Rng, want: fn(&SubCond) -> bool| -> String {
        for _ in 0..200 {
            let c = SubCond::leaf(r);
            if want(&c) {
                return c.leaf_text(r, &Style::plain());
            }
        }
        "a?".into()
    };
    match kind {
        Sub | SubSingleton => SubCond::random(r, depth).text(r, &st),
        SubExists => leaf(r, |c| matches!(c, SubCond::Exists { .. })),
        SubRelation => leaf(r, |c| matches!(c, SubCond::Rel { .. })),
        SubContains => leaf(r, |c| matches!(c, SubCond::Contains { .. })),
        SubRegex => leaf(r, |c| matches!(c, SubCond::Regex { list: false, .. })),
        SubRegexSet => leaf(r, |c| matches!(c, SubCond::Regex { list: true, .. })),
        SubIn => leaf(r, |c| matches!(c, SubCond::In { .. })),
        SubCard => leaf(r, |c| matches!(c, SubCond::Card { .. })),
        Field | FieldExists | FieldSubfields | FieldSingleton | FieldCard | Record => {
            cond_for(r, rec, depth).text(r, &st)
        }
        Tag => random_pattern(r).0.text(),
        Occurrence => random_pattern(r).1.text(r),
        Path => MPath::random(r, Some(rec)).text(r, &st),
        Query => MQuery::random(r, Some(rec)).text(r, &st),
        Format => MFormat::random(r, Some(rec)).text(r, &st),
    }
}

const TOKENS: [&str; 76] = [
    "(", ")", "((", "))", "!", "!(", "&&", "||", "^", " XOR ", "?", "#", ">=", "==", "!=", "=^",
    "!^", "=$", "!$", "=*", "=?", "=~", "!~", " in ", " not in ", "in", "not", "[", "]", "['a',",
    "'b']", "{", "}", "$", "*", ".", "..", "|", ",", "/", "/*", "/00", "/01-03", "/03-01", "/1",
    "-", "ALL ", "ANY ", "'", "\"", "'abc'", "\"a\"", "'a\\'", "\\", "\\n", "\\u{41}", "\\x41",
    "003@", "012A", "0..@", "[01]..[A-C]", "[^0]", "a", "[a-c]", "[abc]", "0", "99999999999999999999",
    "<$>", "<*>", "?L ", "?@ ", " ", "\n", "\t", "é", "\u{0}",
];

fn garbage(r: &mut Rng, kind: Kind, rec: &Rec) -> String {
    match r.below(8) {
        0 => (0..r.range(1, 14)).map(|_| *r.pick(&TOKENS)).collect(),
        1 => {
            let o = Opts::default();
            generate::text(r, &o)
        }
        n => {
            let other = if n < 6 { kind } else { *r.pick(&KINDS) };
            let mut t: Vec<char> = valid(r, other, rec).chars().collect();
            for _ in 0..r.range(1, 3) {
                let at = r.below(t.len() + 1);
                let end = (at + r.range(1, 4)).min(t.len());
                match r.below(7) {
                    0 => drop(t.drain(at..end)),
                    1 => {
                        let x: Vec<char> = r.pick(&TOKENS).chars().collect();
                        t.splice(at..at, x);
                    }
                    2 => {
                        let x: Vec<char> = r.pick(&TOKENS).chars().collect();
                        t.splice(at..end, x);
                    }
                    3 => t.truncate(at),
                    4 => {
                        let x = t[at..end].to_vec();
                        let to = r.below(t.len() + 1);
                        t.splice(to..to, x);
                    }
                    5 if t.len() > 1 => {
                        let (a, b) = (r.below(t.len()), r.below(t.len()));
                        t.swap(a, b);
                    }
                    _ => {
                        let n = r.range(1, 6);
                        let p = *r.pick(&['(', ')', '!', '{', '[']);
                        t.splice(at..at, std::iter::repeat_n(p, n));
                    }
                }
            }
            t.into_iter().collect()
        }
    }
}

/// The nesting constructs: the text and the grammar it belongs to.
const NESTS: usize = 17;
fn nested(which: usize, d: usize) -> (Kind, String) {
    let p = |l: &str, x: &str, r: &str| format!("{}{x}{}", l.repeat(d), r.repeat(d));
    match which {
        0 => (Sub, p("(", "a?", ")")),
        1 => (Sub, p("!(", "a?", ")")),
        2 => (Sub, p("(a? && ", "b?", ")")),
        3 => (Sub, p("(", "b?", " || a?)")),
        4 => (Sub, p("(a == 'x' ^ !(", "#b > 1", "))")),
        5 => (Record, p("(", "012A?", ")")),
        6 => (Record, p("!(", "012A.a?", ")")),
        7 => (Record, p("(012A? && ", "013D.a == 'b'", ")")),
        8 => (Record, p("( 012A{a? || b?} XOR ", "#013D > 1", " )")),
        9 => (Field, p("(", "012A{a?}", " || 012A?)")),
        10 => (Record, format!("012A{{{}}}", p("(", "a?", ")"))),
        11 => (Record, format!("#012A{{{}}} >= 1", p("(", "a?", ")"))),
        12 => (Path, format!("012A{{ a | {} }}", p("(", "a?", ")"))),
        13 => (Query, format!("003@.0, 012A{{ a | {} }}", p("(", "a?", ")"))),
        14 => (Format, format!("012A{{ {} }}", p("(a <$> ", "b", ")"))),
        15 => (Format, format!("012A{{ {} }}", p("( a <*> ", "b", ")"))),
        _ => (Format, format!("012A{{ a | {} }}", p("(", "a?", ")"))),
    }
}

fn probes(r: &mut Rng) -> Vec<Rec> {
    let o = Opts { max_fields: 3, ..Default::default() };
    (0..3)
        .map(|_| {
            let mut rec = generate::record(r, &o);
            rec.fields.truncate(4);
            for f in &mut rec.fields {
                f.subs.truncate(4);
            }
            rec
        })
        .collect()
}

/// Parses in a thread that has not parsed anything before.
fn fresh(kind: Kind, text: &str, encs: &[Vec<u8>]) -> Result<Option<Seen>, String> {
    std::thread::scope(|s| {
        s.spawn(|| {
            let probes: Vec<RecordRef> =
                encs.iter().map(|e| RecordRef::from_bytes(e).unwrap()).collect();
            parse(kind, text, &probes)
        })
        .join()
        .map_err(|_| format!("a fresh thread panics on {kind:?} {text:?}"))
    })
}

fn consistent(kind: Kind, text: &str, seen: &Option<Seen>, probes: &[RecordRef]) -> Verdict {
    let Some(s) = seen else { return Ok(()) };
    if !s.equal {
        return Err(format!("{kind:?} {text:?} is not equal to its clone"));
    }
    if s.stored.as_ref().is_some_and(|x| *x != s.answers) {
        return Err(format!(
            "{kind:?} {text:?} answers {} but {} after serialization",
            s.answers,
            s.stored.as_ref().unwrap()
        ));
    }
    match parse(kind, &s.printed, probes) {
        None => Err(format!("{kind:?} {text:?} prints as {:?}, which is rejected", s.printed)),
        Some(b) if b.answers != s.answers => Err(format!(
            "{kind:?} {text:?} prints as {:?}, which answers {} instead of {}",
            s.printed, b.answers, s.answers
        )),
        Some(_) => Ok(()),
    }
}

pub fn c10(ctx: &mut Ctx) {
    ctx.hang_is_violation();
    ctx.rule(
        "A case parses texts with one of the 20 expression types: documented expressions in a \
         random notation (which must be accepted, behave like the reference evaluation, and \
         behave the same after printing or serializing and parsing again), mutated and random \
         texts (which must give the same result twice and in a fresh thread), nestings of every \
         depth around the limit, and parses after long histories of failed parses. A situation \
         is the type, whether it was accepted and the characters involved.",
    );
    ctx.run("documented", 12_000, 600_000, |c| {
        let recs = probes(&mut c.r);
        let encs: Vec<Vec<u8>> = recs.iter().map(|r| r.encode()).collect();
        let refs: Vec<RecordRef> = encs.iter().map(|e| RecordRef::from_bytes(e).unwrap()).collect();
        let kind = *c.r.pick(&[Sub, Record, Field, Path, Query, Format, Tag, Occurrence]);
        let st = Style::random(&mut c.r);
        let depth = c.r.below(4);
        // (text, what it must answer under the two option sets)
        let o = [MOpts::default(), MOpts { ignore_case: true, threshold: 0.4 }];
        let mut text;
        let mut want: Option<String> = None;
        match kind {
            Sub => {
                let mut cond = SubCond::random(&mut c.r, depth);
                aim_sub(&mut c.r, &mut cond, &recs[0].fields[0]);
                text = cond.text(&mut c.r, &st);
                let mut w = String::new();
                for o in &o {
                    for f in recs.iter().flat_map(|r| &r.fields) {
                        w.push(bit(cond.eval(&f.subs, o)));
                    }
                }
                want = Some(w);
            }
            Record | Field => {
                let cond = cond_for(&mut c.r, &recs[0], depth);
                text = cond.text(&mut c.r, &st);
                let mut w = String::new();
                for o in &o {
                    for r in &recs {
                        w.push(bit(cond.eval(r, o)));
                    }
                }
                want = Some(w);
            }
            Path => {
                let p = MPath::random(&mut c.r, Some(&recs[0]));
                text = p.text(&mut c.r, &st);
                let mut w = String::new();
                for o in &o {
                    for r in &recs {
                        let v: Vec<String> = p.values(r, o).iter().map(|v| show(v)).collect();
                        w += &format!("{v:?};");
                    }
                }
                want = Some(w);
            }
            Query => {
                let q = MQuery::random(&mut c.r, Some(&recs[0]));
                let qo = QOpts::default();
                text = q.text(&mut c.r, &st);
                if recs.iter().any(|r| q.size(r, &qo) > 1000) {
                    return Ok(());
                }
            }
            k => text = valid(&mut c.r, k, &recs[0]),
        }
        // redundant parentheses
        if matches!(kind, Sub | Record | Field) && c.r.chance(1, 4) {
            let n = c.r.range(1, 40);
            text = format!("{}{}{}", "(".repeat(n), text.trim(), ")".repeat(n));
        }
        let seen = parse(kind, &text, &refs);
        let Some(s) = &seen else {
            return Err(format!("{kind:?} {text:?} is rejected"));
        };
        if let Some(w) = want
            && s.answers != w
        {
            return Err(format!(
                "{kind:?} {text:?} answers {} instead of {w} on {:?}",
                s.answers,
                encs.iter().map(|e| show(e)).collect::<Vec<_>>()
            ));
        }
        consistent(kind, &text, &seen, &refs)?;
        c.count("documented expressions accepted", 1);
        c.sig(&format!("{kind:?}/{depth}/{}", s.answers.len().min(40)));
        c.sample(|| json!({"type": format!("{kind:?}"), "text": text, "printed": s.printed}));
        Ok(())
    });
    ctx.run("texts", 12_000, 1_500_000, |c| {
        let recs = probes(&mut c.r);
        let encs: Vec<Vec<u8>> = recs.iter().map(|r| r.encode()).collect();
        let refs: Vec<RecordRef> = encs.iter().map(|e| RecordRef::from_bytes(e).unwrap()).collect();
        let kind = *c.r.pick(&KINDS);
        let mut log = vec![];
        for _ in 0..c.r.range(3, 8) {
            let text = garbage(&mut c.r, kind, &recs[0]);
            let seen = parse(kind, &text, &refs);
            if let Err(e) = consistent(kind, &text, &seen, &refs) {
                return Err(format!("{e}; records {:?}", encs.iter().map(|e| show(e)).collect::<Vec<_>>()));
            }
            let again = parse(kind, &text, &refs);
            if again != seen {
                return Err(format!("{kind:?} {text:?}: {seen:?}, then {again:?}"));
            }
            c.count(if seen.is_some() { "texts accepted" } else { "texts rejected" }, 1);
            c.sig(&format!(
                "text/{kind:?}/{}/{}",
                seen.is_some(),
                text.chars().filter(|c| "(){}[]!&|^#?.,$*/'\"\\<>~".contains(*c)).take(6).collect::<String>()
            ));
            log.push((text, seen));
        }
        let i = c.r.below(log.len());
        let (text, seen) = &log[i];
        let other = fresh(kind, text, &encs)?;
        c.count("parses in a fresh thread", 1);
        if other != *seen {
            return Err(format!(
                "{kind:?} {text:?}: {seen:?} after {:?}, {other:?} in a fresh thread",
                log[..i].iter().map(|x| &x.0).collect::<Vec<_>>()
            ));
        }
        Ok(())
    });
    // every depth, one construct per case
    let limit = 300usize;
    ctx.run("depths", NESTS as u64, NESTS as u64, |c| {
        let recs = probes(&mut c.r);
        let encs: Vec<Vec<u8>> = recs.iter().map(|r| r.encode()).collect();
        let mut last = None;
        for d in 0..=limit {
            let (kind, text) = nested(c.idx as usize, d);
            let start = Instant::now();
            let seen = fresh(kind, &text, &encs)?;
            let took = start.elapsed();
            if took > Duration::from_secs(20) {
                return Err(format!("parsing {kind:?} of {} bytes takes {took:?}: {text}", text.len()));
            }
            c.count("nested expressions", 1);
            match (seen.is_some(), last) {
                (true, None) => {
                    let refs: Vec<RecordRef> =
                        encs.iter().map(|e| RecordRef::from_bytes(e).unwrap()).collect();
                    consistent(kind, &text, &seen, &refs)?;
                }
                (false, None) => last = Some(d),
                (true, Some(l)) => {
                    return Err(format!("{kind:?} nested {l} times is rejected but not {d} times"));
                }
                (false, Some(_)) => {}
            }
            c.sig(&format!("depth/{}/{d}/{}", c.idx, seen.is_some()));
        }
        let need = if c.idx == 4 { 80 } else if matches!(nested(c.idx as usize, 1).0, Format) && c.idx != 16 { 25 } else { 120 };
        if last.is_some_and(|l| l <= need) {
            return Err(format!(
                "nested {} times is rejected: {}",
                last.unwrap(),
                nested(c.idx as usize, last.unwrap()).1
            ));
        }
        Ok(())
    });
    // far beyond the limit: an error, quickly and without a stack overflow
    ctx.run("deep", NESTS as u64 * 3, NESTS as u64 * 3, |c| {
        let n = [1_000, 20_000, 400_000][c.idx as usize % 3];
        let which = c.idx as usize / 3;
        let encs = vec![probes(&mut c.r)[0].encode()];
        let (kind, text) = nested(which, n);
        let seen = fresh(kind, &text, &encs)?;
        if seen.is_some() {
            return Err(format!("{kind:?}: nested {n} times is accepted"));
        }
        // only opening brackets
        let open: String = text.chars().take(text.len() / 2).collect();
        fresh(kind, &open, &encs)?;
        c.count("nested expressions", 2);
        c.sig(&format!("deep/{which}/{n}"));
        Ok(())
    });
    // failed parses leave nothing behind
    ctx.run("histories", 300, 12_000, |c| {
        let recs = probes(&mut c.r);
        let encs: Vec<Vec<u8>> = recs.iter().map(|r| r.encode()).collect();
        let seed = c.r.u64();
        let mut r = Rng::new(seed);
        let refs: Vec<RecordRef> = encs.iter().map(|e| RecordRef::from_bytes(e).unwrap()).collect();
        for _ in 0..r.range(5, 60) {
            let which = r.below(NESTS);
            let d = *r.pick(&[1, 2, 5, 20, 30, 31, 32, 33, 100, 254, 255, 256, 257, 300, 600]);
            let (kind, mut text) = nested(which, d);
            if r.chance(9, 10) {
                let at = r.below(text.len());
                match r.below(3) {
                    0 => text.truncate(at),
                    1 => text.insert(at, '%'),
                    _ => text.insert(at, '('),
                }
            }
            parse(kind, &text, &refs);
            c.count("earlier parses", 1);
        }
        for _ in 0..6 {
            let which = c.r.below(NESTS);
            let d = *c.r.pick(&[1, 15, 28, 29, 30, 31, 32, 33, 127, 128, 250, 252, 253, 254, 255, 256, 257]);
            let (kind, text) = nested(which, d);
            let here = parse(kind, &text, &refs);
            let there = fresh(kind, &text, &encs)?;
            c.count("parses compared with a fresh thread", 1);
            c.sig(&format!("history/{which}/{d}/{}", there.is_some()));
            if here != there {
                return Err(format!(
                    "{kind:?} nested {d} times: accepted {} after {:?}.., {} in a fresh thread: {text}",
                    here.is_some(),
                    nested(which, 1).1,
                    there.is_some()
                ));
            }
        }
        Ok(())
    });
    // several threads at once
    ctx.run("threads", 60, 2_000, |c| {
        let recs = probes(&mut c.r);
        let encs: Vec<Vec<u8>> = recs.iter().map(|r| r.encode()).collect();
        let texts: Vec<(Kind, String)> = (0..24)
            .map(|_| {
                if c.r.chance(1, 3) {
                    let d = c.r.range(1, 300);
                    nested(c.r.below(NESTS), d)
                } else {
                    let k = *c.r.pick(&KINDS);
                    let t = if c.r.bool() { valid(&mut c.r, k, &recs[0]) } else { garbage(&mut c.r, k, &recs[0]) };
                    (k, t)
                }
            })
            .collect();
        let want: Vec<Option<Seen>> =
            texts.iter().map(|(k, t)| fresh(*k, t, &encs)).collect::<Result<_, _>>()?;
        let bad: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|k| {
                    let (texts, want, encs) = (&texts, &want, &encs);
                    s.spawn(move || -> Option<String> {
                        let refs: Vec<RecordRef> =
                            encs.iter().map(|e| RecordRef::from_bytes(e).unwrap()).collect();
                        for i in 0..texts.len() * 2 {
                            let i = (i * 7 + k * 5) % texts.len();
                            let got = parse(texts[i].0, &texts[i].1, &refs);
                            if got != want[i] {
                                return Some(format!(
                                    "{:?} {:?}: {got:?} among other threads, {:?} alone",
                                    texts[i].0, texts[i].1, want[i]
                                ));
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter()
                .filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panics".into())))
                .collect()
        });
        c.count("concurrent parses", 4 * 48);
        c.sig(&format!("threads/{}", want.iter().filter(|x| x.is_some()).count()));
        bad.into_iter().next().map_or(Ok(()), Err)
    });
    ctx.exhausted("nesting depths 0..300 of 17 constructs");
    ctx.require("documented expressions accepted", 5_000);
    ctx.require("texts accepted", 1_000);
    ctx.require("texts rejected", 1_000);
    ctx.require("nested expressions", 1_000);
}
