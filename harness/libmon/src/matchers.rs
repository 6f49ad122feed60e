//! C06 (subfield conditions), C07 (record filters), C11 (composition).
use std::sync::Arc;

use model::expr::*;
use model::generate::{self, Opts};
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use pica_record::matcher::subfield;
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde_json::json;

use crate::conv::*;
use crate::patterns::mopts;

fn kinds_of(k: &mut Vec<&'static str>) -> String {
    k.sort();
    k.dedup();
    k.concat()
}

/// The class of its own that accepts the leaf.
fn leaf_answer(
    cond: &SubCond,
    text: &str,
    f: &FieldRef,
    o: &MatcherOptions,
) -> Option<Result<bool, String>> {
    let s = f.subfields();
    macro_rules! ask {
        ($t:ident) => {
            subfield::$t::new(text).map(|m| m.is_match(s, o)).map_err(|e| e.to_string())
        };
    }
    Some(match cond {
        SubCond::Rel { .. } => ask!(RelationMatcher),
        SubCond::Contains { .. } => ask!(ContainsMatcher),
        SubCond::In { .. } => ask!(InMatcher),
        SubCond::Regex { list: false, .. } => ask!(RegexMatcher),
        SubCond::Regex { list: true, .. } => ask!(RegexSetMatcher),
        SubCond::Card { .. } => ask!(CardinalityMatcher),
        SubCond::Exists { .. } => ask!(ExistsMatcher),
        _ => return None,
    })
}

fn check_sub(c: &mut Case, cond: &SubCond, fields: &[Fld], m: &MOpts) -> Verdict {
    let st = Style::random(&mut c.r);
    let text = cond.text(&mut c.r, &st);
    let lib = SubfieldMatcher::new(&text).map_err(|e| format!("{text:?} is rejected: {e}"))?;
    let o = opts(m);
    let mut kinds = vec![];
    cond.kinds(&mut kinds);
    let kinds = kinds_of(&mut kinds);
    for f in fields {
        let want = cond.eval(&f.subs, m);
        let mut enc = vec![];
        f.encode(&mut enc);
        let lf = FieldRef::from_bytes(&enc).map_err(|e| e.to_string())?;
        let ctx = || format!("condition {text:?} options {m:?} field '{}'", show(&enc));
        let got = lib.is_match(lf.subfields(), &o);
        c.count(if want { "conditions that hold" } else { "conditions that do not hold" }, 1);
        if got != want {
            return Err(format!("holds: {got}, should be {want}; {}", ctx()));
        }
        if cond.is_leaf() {
            let plain = cond.leaf_text(&mut c.r, &Style::plain());
            if let Some(a) = leaf_answer(cond, &plain, &lf, &o) {
                let a = a.map_err(|e| format!("{plain:?}: {e}"))?;
                if a != want {
                    return Err(format!("its own matcher says {a}, should be {want}; {}", ctx()));
                }
            }
        }
        c.sig(&format!("{kinds}/{want}/{}/{}", m.ignore_case, f.subs.len().min(3)));
    }
    c.sample(|| json!({"condition": text, "options": format!("{m:?}")}));
    Ok(())
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule(
        "A case evaluates a subfield condition in a random notation on fields that contain the \
         texts it asks for (exact, other case, prefixes, suffixes, near misses, composed and \
         decomposed characters, invalid UTF-8) with random options, through the general and the \
         specific matcher types, and compares with the reference evaluation. A situation is the \
         set of operators with answer, ignore-case and number of subfields.",
    );
    ctx.assume(
        "=~ means a match of the Rust regex syntax on bytes; =* means 1 - Levenshtein \
         distance / longer length, in characters, above the threshold",
    );
    let field = |r: &mut Rng| {
        let o = Opts { utf8: r.chance(3, 4), lf: r.chance(1, 8), ..Default::default() };
        let mut f = generate::field(r, &o);
        if r.chance(1, 40) {
            for _ in 0..r.range(200, 400) {
                let mut more = generate::subs(r, &o);
                f.subs.append(&mut more);
            }
        }
        f
    };
    ctx.run("leaves", 40_000, 3_000_000, |c| {
        let mut fields: Vec<Fld> = (0..2).map(|_| field(&mut c.r)).collect();
        fields.push(Fld { subs: vec![], ..fields[0].clone() });
        let mut cond = SubCond::leaf(&mut c.r);
        aim_sub(&mut c.r, &mut cond, &fields[0]);
        let m = mopts(&mut c.r);
        check_sub(c, &cond, &fields, &m)
    });
    ctx.run("compound", 20_000, 2_000_000, |c| {
        let fields: Vec<Fld> = (0..3).map(|_| field(&mut c.r)).collect();
        let depth = c.r.range(1, 4);
        let mut cond = SubCond::random(&mut c.r, depth);
        aim_sub(&mut c.r, &mut cond, &fields[0]);
        let m = mopts(&mut c.r);
        check_sub(c, &cond, &fields, &m)
    });
    // every operator with every pair of texts of a small set
    let texts: Vec<&str> = vec![
        "", "a", "A", "b", "ab", "AB", "aB", "ba", "abc", "é", "É", "e\u{301}", "ß", "ss", "SS",
        "k", "\u{212a}", "İ", "i̇", "a\"b", "a'b", "a\\b", "a\nb",
    ];
    let n = texts.len();
    ctx.run("pairs", (n * n) as u64, (n * n) as u64, |c| {
        let (v, w) = (texts[c.idx as usize / n], texts[c.idx as usize % n]);
        let one = |v: &str| Sub { code: b'a', value: v.as_bytes().to_vec() };
        let fields = vec![
            Fld { tag: *b"012A", occ: None, subs: vec![one(v)] },
            Fld { tag: *b"012A", occ: None, subs: vec![one("x"), one(v), one("y")] },
        ];
        for ignore_case in [false, true] {
            for (op, _) in STR_OPS {
                for quant in [Quant::Any, Quant::All] {
                    let thresholds: &[f64] =
                        if op == StrOp::Similar { &[0.0, 0.33, 0.5, 0.66, 0.99] } else { &[0.8] };
                    for t in thresholds {
                        let cond = SubCond::Rel { quant, codes: Codes::One(b'a'), op, value: w.into() };
                        check_sub(c, &cond, &fields, &MOpts { ignore_case, threshold: *t })?;
                    }
                }
            }
            for quant in [Quant::Any, Quant::All] {
                let m = MOpts { ignore_case, threshold: 0.8 };
                for not in [false, true] {
                    let cond = SubCond::In {
                        quant,
                        codes: Codes::All,
                        values: vec![w.into(), "y".into()],
                        not,
                        list: true,
                    };
                    check_sub(c, &cond, &fields, &m)?;
                    let cond = SubCond::Regex {
                        quant,
                        codes: Codes::One(b'a'),
                        res: vec![regex_escape(w)],
                        not,
                        list: c.r.bool(),
                    };
                    check_sub(c, &cond, &fields, &m)?;
                }
                let cond = SubCond::Contains {
                    quant,
                    codes: Codes::One(b'a'),
                    values: vec![w.into()],
                    list: c.r.bool(),
                };
                check_sub(c, &cond, &fields, &m)?;
            }
        }
        Ok(())
    });
    // every expression of a list with every value of a list
    let values: Vec<&[u8]> = vec![
        b"", b"a", b"b", b"ab", b"aa", b"a\nb", b"a\rb", b"\n", b"b\na", b"a b", b"a.b", b"axb", b"abx",
        b"a\nxb", "é".as_bytes(), "É".as_bytes(), "aéb".as_bytes(), b"\xe9", b"\xff", b"a\xffb", b"A",
        b"ABC", b"1", "\u{662}".as_bytes(), b"_", b" ", "\u{a0}".as_bytes(), "日本".as_bytes(), b"xxx",
        b"b a", b"b.a", b"\x00", "ä".as_bytes(), "Ω".as_bytes(), "\u{212a}".as_bytes(), b"k",
    ];
    let k = model::expr::REGEXES.len();
    let n = (k * values.len()) as u64;
    ctx.run("regexes", n, n, |c| {
        let re = model::expr::REGEXES[c.idx as usize % k];
        let v = values[c.idx as usize / k].to_vec();
        let fields = vec![
            Fld { tag: *b"012A", occ: None, subs: vec![Sub { code: b'a', value: v.clone() }] },
            Fld {
                tag: *b"012A",
                occ: None,
                subs: vec![
                    Sub { code: b'a', value: b"q".to_vec() },
                    Sub { code: b'b', value: b"a".to_vec() },
                    Sub { code: b'a', value: v },
                ],
            },
        ];
        for i in 0..16 {
            let cond = SubCond::Regex {
                quant: if i & 1 > 0 { Quant::All } else { Quant::Any },
                codes: Codes::One(b'a'),
                res: if i & 4 > 0 { vec!["zzz".into(), re.into()] } else { vec![re.into()] },
                not: i & 2 > 0,
                list: i & 4 > 0,
            };
            check_sub(c, &cond, &fields, &MOpts { ignore_case: i & 8 > 0, threshold: 0.8 })?;
        }
        Ok(())
    });
    ctx.run("counts", 6 * 8 * 8, 6 * 8 * 8, |c| {
        let i = c.idx as usize;
        let op = NUM_OPS[i % 6];
        let (k, n) = (i / 6 % 8, i / 48);
        let mut subs = vec![Sub { code: b'b', value: b"x".to_vec() }; 3];
        for _ in 0..k {
            let at = c.r.below(subs.len() + 1);
            subs.insert(at, Sub { code: b'a', value: b"x".to_vec() });
        }
        let f = Fld { tag: *b"012A", occ: None, subs };
        let cond = SubCond::Card { codes: Codes::One(b'a'), op, n };
        check_sub(c, &cond, &[f], &MOpts::default())
    });
    ctx.exhausted(
        "all string operators and quantifiers on 529 pairs of texts, with and without \
         ignore-case; 40 regular expressions on 36 values, alone and in a list, with both \
         operators, quantifiers and settings of ignore-case; all comparisons of counts 0..7 with 0..7",
    );
    ctx.require("conditions that hold", 5_000);
    ctx.require("conditions that do not hold", 5_000);
}

fn regex_escape(s: &str) -> String {
    model::expr::escape_regex(s)
}

// ---------------------------------------------------------------- C07

fn record(r: &mut Rng) -> Rec {
    let o = Opts {
        utf8: r.chance(2, 3),
        max_fields: *r.pick(&[2, 6, 12]),
        ..Default::default()
    };
    let mut rec = generate::record(r, &o);
    if r.chance(1, 400) {
        for _ in 0..800 {
            let f = r.pick(&rec.fields).clone();
            rec.fields.push(f);
        }
    }
    rec
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule(
        "A case evaluates one filter, written in two random notations (dot, curly, dollar, \
         parentheses, white space, XOR or ^), with random options on several records as bytes, \
         reference, owned record and text, through RecordMatcher and FieldMatcher, and compares \
         with the reference evaluation. A situation is the set of operators, the answer and \
         ignore-case.",
    );
    let check = |c: &mut Case, cond: &Cond, recs: &[Rec]| -> Verdict {
        let m = mopts(&mut c.r);
        let o = opts(&m);
        let mut kinds = vec![];
        cond.kinds(&mut kinds);
        let kinds = kinds_of(&mut kinds);
        for round in 0..2 {
            let st = Style::random(&mut c.r);
            let text = cond.text(&mut c.r, &st);
            let rm = RecordMatcher::new(&text).map_err(|e| format!("{text:?} is rejected: {e}"))?;
            let fm = FieldMatcher::new(&text).map_err(|e| format!("{text:?} is rejected: {e}"))?;
            for rec in recs {
                let want = cond.eval(rec, &m);
                let enc = rec.encode();
                let ctx = |how: &str| {
                    format!("{how} should be {want}; filter {text:?} options {m:?} record '{}'", show(&enc))
                };
                let r = RecordRef::from_bytes(&enc).map_err(|e| e.to_string())?;
                c.count(if want { "records selected" } else { "records not selected" }, 1);
                if rm.is_match(&r, &o) != want {
                    return Err(ctx("RecordMatcher"));
                }
                if fm.is_match(r.fields(), &o) != want {
                    return Err(ctx("FieldMatcher"));
                }
                let byte = ByteRecord::from_bytes(&enc).map_err(|e| e.to_string())?;
                if rm.is_match(&byte, &o) != want {
                    return Err(ctx("byte record"));
                }
                let mut owned = vec![];
                Record::from(r).write_to(&mut owned).map_err(|e| e.to_string())?;
                let r2 = RecordRef::from_bytes(&owned).map_err(|e| e.to_string())?;
                if rm.is_match(&r2, &o) != want {
                    return Err(ctx("owned record"));
                }
                if let Ok(s) = StringRecord::try_from(byte)
                    && rm.is_match(&s, &o) != want
                {
                    return Err(ctx("text record"));
                }
                // evaluation has no memory
                if rm.is_match(&r2, &o) != want {
                    return Err(ctx("second evaluation"));
                }
                c.sig(&format!("{kinds}/{want}/{}", m.ignore_case));
            }
            if round == 0 {
                c.sample(|| json!({"filter": text, "record": show(&recs[0].encode())}));
            }
        }
        Ok(())
    };
    ctx.run("leaves", 15_000, 1_000_000, |c| {
        let recs: Vec<Rec> = (0..3).map(|_| record(&mut c.r)).collect();
        let cond = cond_for(&mut c.r, &recs[0], 0);
        check(c, &cond, &recs)
    });
    ctx.run("compound", 15_000, 1_000_000, |c| {
        let recs: Vec<Rec> = (0..3).map(|_| record(&mut c.r)).collect();
        let depth = c.r.range(1, 4);
        let cond = cond_for(&mut c.r, &recs[0], depth);
        check(c, &cond, &recs)
    });
    // every tree of connectives over three atoms that do and do not hold
    ctx.run("connectives", 3_000, 100_000, |c| {
        let atom = |k: usize| Cond::Exists {
            tag: TagPat::lit(["012A", "013A", "014A", "015A"][k]),
            occ: OccPat::None,
        };
        fn tree(r: &mut Rng, atom: &dyn Fn(usize) -> Cond, depth: usize) -> Cond {
            if depth == 0 || r.chance(1, 5) {
                return atom(r.below(4));
            }
            let n = r.range(2, 4);
            let items = |r: &mut Rng| (0..n).map(|_| tree(r, atom, depth - 1)).collect();
            match r.below(4) {
                0 => Cond::And(items(r)),
                1 => Cond::Or(items(r)),
                2 => Cond::Xor(items(r)),
                _ => Cond::Not(Box::new(tree(r, atom, depth - 1))),
            }
        }
        let depth = c.r.range(1, 5);
        let cond = tree(&mut c.r, &atom, depth);
        // all 16 assignments
        let recs: Vec<Rec> = (0..16u8)
            .map(|bits| {
                let mut fields = vec![generate::ppn_field(&mut c.r)];
                for (k, t) in [b"012A", b"013A", b"014A", b"015A"].into_iter().enumerate() {
                    if bits >> k & 1 == 1 {
                        fields.push(Fld { tag: *t, occ: None, subs: vec![] });
                    }
                }
                Rec { fields }
            })
            .collect();
        check(c, &cond, &recs)
    });
    ctx.require("records selected", 5_000);
    ctx.require("records not selected", 5_000);
}

// ---------------------------------------------------------------- C11

/// A matcher combined in code, and its meaning.
struct Built<M, C> {
    m: M,
    c: C,
    log: String,
}

macro_rules! compose {
    ($name:ident, $m:ty, $c:ident) => {
        fn $name(r: &mut Rng, depth: usize, leaf: &dyn Fn(&mut Rng) -> Result<Built<$m, $c>, String>) -> Result<Built<$m, $c>, String> {
            if depth == 0 || r.chance(1, 6) {
                return leaf(r);
            }
            let a = $name(r, depth - 1, leaf)?;
            if r.chance(1, 4) {
                return Ok(Built { m: !a.m, c: $c::Not(Box::new(a.c)), log: format!("!({})", a.log) });
            }
            let b = $name(r, depth - 1, leaf)?;
            let assign = r.chance(1, 3);
            let op = r.below(3);
            let m = if assign {
                let mut m = a.m;
                match op {
                    0 => m &= b.m,
                    1 => m |= b.m,
                    _ => m ^= b.m,
                }
                m
            } else {
                match op {
                    0 => a.m & b.m,
                    1 => a.m | b.m,
                    _ => a.m ^ b.m,
                }
            };
            let items = vec![a.c, b.c];
            let c = match op {
                0 => $c::And(items),
                1 => $c::Or(items),
                _ => $c::Xor(items),
            };
            let log = format!("({} {}{} {})", a.log, ["&", "|", "^"][op], if assign { "=" } else { "" }, b.log);
            Ok(Built { m, c, log })
        }
    };
}
compose!(compose_sub, SubfieldMatcher, SubCond);
compose!(compose_field, FieldMatcher, Cond);
compose!(compose_record, RecordMatcher, Cond);

pub fn c11(ctx: &mut Ctx) {
    ctx.rule(
        "A case combines parsed subfield, field or record matchers by a random tree of &, |, ^, \
         !, &=, |=, ^= (or by the builder), evaluates the result, its clone and its printed and \
         reparsed form on several records, from one or from several threads at once, and \
         compares with the same boolean combination of the model. A situation is kind, shape of \
         the tree and answer.",
    );
    let shape = |log: &str| -> String {
        log.chars().filter(|c| "!&|^()=".contains(*c)).take(24).collect()
    };
    ctx.run("subfields", 10_000, 600_000, |c| {
        let o = Opts::default();
        let fields: Vec<Fld> = (0..3).map(|_| generate::field(&mut c.r, &o)).collect();
        let depth = c.r.range(1, 4);
        let inner = c.r.below(2);
        let f0 = fields[0].clone();
        let leaf = move |r: &mut Rng| {
            let mut cond = SubCond::random(r, inner);
            aim_sub(r, &mut cond, &f0);
            let st = Style::random(r);
            let text = cond.text(r, &st);
            let m = SubfieldMatcher::new(&text).map_err(|e| format!("{text:?}: {e}"))?;
            Ok(Built { m, c: cond, log: text })
        };
        let b = compose_sub(&mut c.r, depth, &leaf)?;
        let m = mopts(&mut c.r);
        let printed = b.m.to_string();
        let again = SubfieldMatcher::new(&printed).map_err(|e| format!("{} prints as {printed:?}: {e}", b.log))?;
        let clone = b.m.clone();
        if clone != b.m {
            return Err(format!("clone of {} is not equal", b.log));
        }
        for f in &fields {
            let want = b.c.eval(&f.subs, &m);
            let mut enc = vec![];
            f.encode(&mut enc);
            let lf = FieldRef::from_bytes(&enc).map_err(|e| e.to_string())?;
            for (how, x) in [("combined", &b.m), ("clone", &clone), ("printed", &again)] {
                let got = x.is_match(lf.subfields(), &opts(&m));
                if got != want {
                    return Err(format!(
                        "{how} matcher: {got}, should be {want}; {} ({printed}) options {m:?} field '{}'",
                        b.log, show(&enc)
                    ));
                }
                c.count("evaluations", 1);
            }
            c.sig(&format!("sub/{}/{want}", shape(&b.log)));
        }
        c.sample(|| json!({"combination": b.log, "printed": printed}));
        if clone != b.m || b.m.to_string() != printed {
            return Err("evaluation changed the matcher".into());
        }
        Ok(())
    });
    macro_rules! workload {
        ($name:literal, $compose:ident, $m:ident, $eval:expr) => {
            ctx.run($name, 8_000, 500_000, |c| {
                let recs: Vec<Rec> = (0..3).map(|_| record(&mut c.r)).collect();
                let depth = c.r.range(1, 4);
                let inner = c.r.below(2);
                let r0 = recs[0].clone();
                let leaf = move |r: &mut Rng| {
                    let cond = cond_for(r, &r0, inner);
                    let st = Style::random(r);
                    let text = cond.text(r, &st);
                    let m = $m::new(&text).map_err(|e| format!("{text:?}: {e}"))?;
                    Ok(Built { m, c: cond, log: text })
                };
                let b = $compose(&mut c.r, depth, &leaf)?;
                let m = mopts(&mut c.r);
                let printed = b.m.to_string();
                let again = $m::new(&printed)
                    .map_err(|e| format!("{} prints as {printed:?}: {e}", b.log))?;
                let clone = b.m.clone();
                if clone != b.m {
                    return Err(format!("clone of {} is not equal", b.log));
                }
                for rec in &recs {
                    let want = b.c.eval(rec, &m);
                    let enc = rec.encode();
                    let r = RecordRef::from_bytes(&enc).map_err(|e| e.to_string())?;
                    for (how, x) in [("combined", &b.m), ("clone", &clone), ("printed", &again)] {
                        let got = $eval(x, &r, &opts(&m));
                        if got != want {
                            return Err(format!(
                                "{how} matcher: {got}, should be {want}; {} ({printed}) options {m:?} record '{}'",
                                b.log, show(&enc)
                            ));
                        }
                        c.count("evaluations", 1);
                    }
                    expect_rec("the record after the evaluation", &r, rec)?;
                    c.sig(&format!("{}/{}/{want}", $name, shape(&b.log)));
                }
                c.sample(|| json!({"combination": b.log, "printed": printed}));
                Ok(())
            });
        };
    }
    workload!("fields", compose_field, FieldMatcher, |m: &FieldMatcher, r: &RecordRef, o: &MatcherOptions| m
        .is_match(r.fields(), o));
    workload!("records", compose_record, RecordMatcher, |m: &RecordMatcher, r: &RecordRef, o: &MatcherOptions| m
        .is_match(r, o));
    ctx.run("builder", 8_000, 500_000, |c| {
        let recs: Vec<Rec> = (0..3).map(|_| record(&mut c.r)).collect();
        let inner = c.r.below(3);
        let texts = |r: &mut Rng, n: usize| -> Vec<(Cond, String)> {
            (0..n)
                .map(|_| {
                    let cond = cond_for(r, &recs[0], inner);
                    let st = Style::random(r);
                    let t = cond.text(r, &st);
                    (cond, t)
                })
                .collect()
        };
        let (first, text) = texts(&mut c.r, 1).remove(0);
        let transform = c.r.bool();
        // The transformation takes off a mark; a text without it, or one
        // that is transformed twice, does not parse any more.
        let mark = |t: &String| if transform { format!("%{t}") } else { t.clone() };
        let mut b = if transform {
            RecordMatcherBuilder::with_transform(mark(&text), |s: String| {
                format!("({})", s.strip_prefix('%').unwrap_or("no mark"))
            })
        } else {
            RecordMatcherBuilder::new(text.clone())
        }
        .map_err(|e| format!("{text:?}: {e}"))?;
        let mut want = first;
        let mut log = vec![text];
        let mut sig = String::new();
        for _ in 0..c.r.below(4) {
            let n = c.r.below(3);
            let part = texts(&mut c.r, n);
            let strings: Vec<String> = part.iter().map(|p| mark(&p.1)).collect();
            let op = c.r.below(3);
            log.push(format!("{} {strings:?}", ["and", "or", "not"][op]));
            sig += &format!("{op}{n}");
            b = match op {
                0 => b.and(strings),
                1 => b.or(strings),
                _ => b.not(strings),
            }
            .map_err(|e| format!("{log:?} (transformed: {transform}): {e}"))?;
            for (p, _) in part {
                want = match op {
                    0 => Cond::And(vec![want, p]),
                    1 => Cond::Or(vec![want, p]),
                    _ => Cond::And(vec![want, Cond::Not(Box::new(p))]),
                };
            }
        }
        let built = b.build();
        let m = mopts(&mut c.r);
        for rec in &recs {
            let exp = want.eval(rec, &m);
            let enc = rec.encode();
            let r = RecordRef::from_bytes(&enc).map_err(|e| e.to_string())?;
            if built.is_match(&r, &opts(&m)) != exp {
                return Err(format!(
                    "built matcher should be {exp}: {log:?} ({built}) options {m:?} record '{}'",
                    show(&enc)
                ));
            }
            c.count("evaluations", 1);
            c.sig(&format!("builder/{sig}/{transform}/{exp}"));
        }
        c.sample(|| json!(log));
        Ok(())
    });
    // one matcher, several threads
    ctx.run("threads", 150, 5_000, |c| {
        let recs: Vec<Rec> = (0..24).map(|_| record(&mut c.r)).collect();
        let cond = cond_for(&mut c.r, &recs[0], 3);
        let other = cond_for(&mut c.r, &recs[1], 2);
        let st = Style::random(&mut c.r);
        let (a, b) = (cond.text(&mut c.r, &st), other.text(&mut c.r, &st));
        let m = mopts(&mut c.r);
        let ma = RecordMatcher::new(&a).map_err(|e| format!("{a:?}: {e}"))?;
        let mb = RecordMatcher::new(&b).map_err(|e| format!("{b:?}: {e}"))?;
        let shared = Arc::new(ma ^ mb);
        let want: Vec<bool> =
            recs.iter().map(|r| cond.eval(r, &m) != other.eval(r, &m)).collect();
        let recs = Arc::new(recs);
        let handles: Vec<_> = (0..4)
            .map(|k| {
                let (shared, recs, want) = (shared.clone(), recs.clone(), want.clone());
                std::thread::spawn(move || -> Verdict {
                    let own = (*shared).clone();
                    for i in 0..recs.len() * 3 {
                        let i = (i * (k + 1)) % recs.len();
                        let enc = recs[i].encode();
                        let r = RecordRef::from_bytes(&enc).map_err(|e| e.to_string())?;
                        if shared.is_match(&r, &opts(&m)) != want[i]
                            || own.is_match(&r, &opts(&m)) != want[i]
                        {
                            return Err(format!(
                                "thread {k}: should be {}; {shared} on '{}'",
                                want[i],
                                show(&enc)
                            ));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        for h in handles {
            match h.join() {
                Ok(r) => r?,
                Err(_) => return Err("a thread panicked".into()),
            }
        }
        c.count("concurrent evaluations", 4 * 24 * 6);
        c.sig(&format!("threads/{}", want.iter().filter(|x| **x).count()));
        Ok(())
    });
    ctx.require("evaluations", 10_000);
    ctx.require("concurrent evaluations", 1_000);
}
