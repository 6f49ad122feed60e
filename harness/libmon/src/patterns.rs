//! C04 (tag, occurrence and code patterns) and C05 (paths).
use model::expr::*;
use model::generate::{self, Opts};
use model::mon::*;
use model::query;
use model::rec::*;
use model::rng::Rng;
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde_json::json;

use crate::conv::*;

const ALPHABETS: [&[u8]; 4] =
    [b"012", b"0123456789", b"0123456789", b"@ABCDEFGHIJKLMNOPQRSTUVWXYZ"];

fn all_tags() -> Vec<[u8; 4]> {
    let mut v = vec![];
    for a in ALPHABETS[0] {
        for b in ALPHABETS[1] {
            for c in ALPHABETS[2] {
                for d in ALPHABETS[3] {
                    v.push([*a, *b, *c, *d]);
                }
            }
        }
    }
    v
}

fn all_occs() -> Vec<Option<String>> {
    let mut v = vec![None];
    v.extend((0..100).map(|n| Some(format!("{n:02}"))));
    v.extend((0..1000).map(|n| Some(format!("{n:03}"))));
    v
}

/// Reads items `x` and `x-y` up to a closing bracket.
fn class(s: &[u8], i: &mut usize, allowed: &dyn Fn(u8) -> bool) -> Option<Vec<(u8, u8)>> {
    let mut items = vec![];
    loop {
        let c = *s.get(*i)?;
        if c == b']' {
            *i += 1;
            return if items.is_empty() { None } else { Some(items) };
        }
        if !allowed(c) {
            return None;
        }
        if s.get(*i + 1) == Some(&b'-') {
            let d = *s.get(*i + 2)?;
            if !allowed(d) || c >= d {
                return None;
            }
            items.push((c, d));
            *i += 3;
        } else {
            items.push((c, c));
            *i += 1;
        }
    }
}

/// The notation of tag patterns.
fn read_tag_pattern(s: &[u8]) -> Option<TagPat> {
    let mut i = 0;
    let mut out = vec![];
    for a in ALPHABETS {
        let c = *s.get(i)?;
        i += 1;
        out.push(match c {
            b'.' => Class::Dot,
            b'[' => Class::Set(class(s, &mut i, &|c| a.contains(&c))?),
            c if a.contains(&c) => Class::One(c),
            _ => return None,
        });
    }
    if i != s.len() {
        return None;
    }
    Some(TagPat(out.try_into().unwrap()))
}

/// The notation of occurrence patterns.
fn read_occ_pattern(s: &[u8]) -> Option<OccPat> {
    let digits = |s: &[u8]| (s.len() == 2 || s.len() == 3) && s.iter().all(u8::is_ascii_digit);
    match s {
        b"" | b"/00" => Some(OccPat::None),
        b"/*" => Some(OccPat::Any),
        [b'/', rest @ ..] => {
            if digits(rest) {
                return Some(OccPat::Exact(rest.to_vec()));
            }
            let k = rest.iter().position(|c| *c == b'-')?;
            let (a, b) = (&rest[..k], &rest[k + 1..]);
            if digits(a) && digits(b) && a.len() == b.len() && a < b {
                return Some(OccPat::Range(a.to_vec(), b.to_vec()));
            }
            None
        }
        _ => None,
    }
}

/// The notation of subfield codes after a dot.
fn read_codes(s: &[u8]) -> Option<Codes> {
    match s {
        b"*" => Some(Codes::All),
        [c] if c.is_ascii_alphanumeric() => Some(Codes::One(*c)),
        [b'[', ..] => {
            let mut i = 1;
            let items = class(s, &mut i, &|c| c.is_ascii_alphanumeric())?;
            // a range goes from byte to byte, and what lies between codes
            // is no code
            if i != s.len() {
                return None;
            }
            Some(Codes::Set(items))
        }
        _ => None,
    }
}

fn check_tag_pattern(c: &mut Case, text: &str, tags: &[[u8; 4]]) -> Verdict {
    let want = read_tag_pattern(text.as_bytes());
    let got = TagMatcher::new(text);
    c.count(if want.is_some() { "tag patterns" } else { "texts that are no tag pattern" }, 1);
    let Some(want) = want else {
        return match got {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("'{text}' is accepted as a tag pattern")),
        };
    };
    let m = got.map_err(|e| format!("'{text}' is rejected: {e}"))?;
    let again = TagMatcher::new(&m.to_string()).map_err(|e| format!("printed form: {e}"))?;
    let json = serde_json::to_string(&m).map_err(|e| e.to_string())?;
    let third: TagMatcher = serde_json::from_str(&json).map_err(|e| format!("{json}: {e}"))?;
    let mut hits = 0u64;
    for t in tags {
        let s = std::str::from_utf8(t).unwrap();
        let tag = TagRef::new(s).map_err(|e| e.to_string())?;
        let exp = want.matches(t);
        hits += exp as u64;
        if m.is_match(&tag) != exp || again.is_match(&tag) != exp || third.is_match(&tag) != exp {
            return Err(format!("tag pattern '{text}' on {s}: should be {exp}"));
        }
        // through an owned tag
        let owned = Tag::from(tag);
        if !m.is_match(&TagRef::from_unchecked(owned.as_bytes())) == exp {
            return Err(format!("tag pattern '{text}' on the owned tag {s}: should be {exp}"));
        }
    }
    c.count("tag evaluations", tags.len() as u64);
    let kinds: String = want
        .0
        .iter()
        .map(|c| match c {
            Class::One(_) => 'c',
            Class::Dot => '.',
            Class::Set(s) if s.iter().any(|(a, b)| a != b) => '-',
            Class::Set(_) => '[',
        })
        .collect();
    c.sig(&format!("tag/{kinds}/{}", (hits as f64).log2() as i64));
    Ok(())
}

fn check_occ_pattern(c: &mut Case, text: &str, occs: &[Option<String>]) -> Verdict {
    let want = read_occ_pattern(text.as_bytes());
    let got = OccurrenceMatcher::new(text);
    c.count(
        if want.is_some() { "occurrence patterns" } else { "texts that are no occurrence pattern" },
        1,
    );
    let Some(want) = want else {
        return match got {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("'{text}' is accepted as an occurrence pattern")),
        };
    };
    let m = got.map_err(|e| format!("'{text}' is rejected: {e}"))?;
    let again =
        OccurrenceMatcher::new(&m.to_string()).map_err(|e| format!("printed form of '{text}': {e}"))?;
    for o in occs {
        let exp = want.matches(o.as_ref().map(|o| o.as_bytes()));
        let r = match o {
            Some(o) => Some(OccurrenceRef::new(o).map_err(|e| e.to_string())?),
            None => None,
        };
        if m.is_match(r.as_ref()) != exp || again.is_match(r.as_ref()) != exp {
            return Err(format!("occurrence pattern '{text}' on {o:?}: should be {exp}"));
        }
        if let Some(r) = r {
            let owned = Occurrence::from(r);
            let back = OccurrenceRef::from_unchecked(owned.as_bytes());
            if m.is_match(Some(&back)) != exp {
                return Err(format!("occurrence pattern '{text}' on owned {o:?}: should be {exp}"));
            }
        }
    }
    c.count("occurrence evaluations", occs.len() as u64);
    c.sig(&match &want {
        OccPat::Range(a, b) => format!(
            "occ/range/{}/{}/{}",
            a.len(),
            std::str::from_utf8(a).unwrap().parse::<u32>().unwrap() / 10,
            std::str::from_utf8(b).unwrap().parse::<u32>().unwrap() / 10
        ),
        OccPat::Exact(a) => format!("occ/exact/{}", std::str::from_utf8(a).unwrap()),
        o => format!("occ/{o:?}"),
    });
    Ok(())
}

const CODES: &[u8; 62] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

fn check_codes(c: &mut Case, text: &str, all: &[u8]) -> Verdict {
    let want = read_codes(text.as_bytes());
    let rec = RecordRef::from_bytes(all).map_err(|e| e.to_string())?;
    c.count(if want.is_some() { "code lists" } else { "texts that are no code list" }, 1);
    let forms = [
        ("path", format!("012A.{text}"), true),
        ("curly path", format!("012A{{{text}}}"), true),
        ("filter", format!("012A.{text}?"), false),
        ("card", format!("#012A{{{text}?}} >= 1"), false),
    ];
    for (what, form, is_path) in forms {
        if !is_path && text.trim_start().starts_with('!') {
            continue; // a negation in curly braces
        }
        if is_path {
            let p = Path::new(&form);
            if p.is_ok() != want.is_some() {
                // a curly path also takes the `$` notation
                return Err(format!("{what} '{form}' should be valid: {}", want.is_some()));
            }
            if let (Ok(p), Some(w)) = (p, &want) {
                let got: Vec<u8> =
                    rec.path(&p, &MatcherOptions::default()).map(|v| v[0]).collect();
                let exp: Vec<u8> = CODES.iter().copied().filter(|c| w.contains(*c)).collect();
                if got != exp {
                    return Err(format!(
                        "{what} '{form}' yields codes {} instead of {}",
                        show(&got),
                        show(&exp)
                    ));
                }
            }
        } else {
            let m = RecordMatcher::new(&form);
            if m.is_ok() != want.is_some() {
                return Err(format!("{what} '{form}' should be valid: {}", want.is_some()));
            }
            if let (Ok(m), Some(w)) = (m, &want) {
                // one field per code
                for k in CODES {
                    let one = format!("012A \u{1f}{}x\u{1e}\n", *k as char).into_bytes();
                    let one = RecordRef::from_bytes(&one).map_err(|e| e.to_string())?;
                    let exp = w.contains(*k);
                    if m.is_match(&one, &MatcherOptions::default()) != exp {
                        return Err(format!("{what} '{form}' on code {}: should be {exp}", *k as char));
                    }
                }
                c.count("code evaluations", 62);
            }
        }
    }
    if let Some(w) = &want {
        c.sig(&format!(
            "codes/{}/{}",
            CODES.iter().filter(|c| w.contains(**c)).count(),
            text.len().min(9)
        ));
        if let Some(d) = w.dollar() {
            for form in [format!("012A${d}"), format!("012A $ {d}"), format!("012A{{${d}}}")] {
                let p = Path::new(&form).map_err(|e| e.to_string())?;
                let got: Vec<u8> =
                    rec.path(&p, &MatcherOptions::default()).map(|v| v[0]).collect();
                let exp: Vec<u8> = CODES.iter().copied().filter(|c| w.contains(*c)).collect();
                if got != exp {
                    return Err(format!("path '{form}' yields {}", show(&got)));
                }
            }
        }
    }
    Ok(())
}

/// A text near the notation, made of its characters.
fn mutate(r: &mut Rng, s: &str, alphabet: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let a: Vec<char> = alphabet.chars().collect();
    for _ in 0..r.range(1, 2) {
        let i = r.below(v.len() + 1);
        match r.below(4) {
            0 if i < v.len() => {
                v.remove(i);
            }
            1 if i < v.len() => v[i] = *r.pick(&a),
            2 if v.len() > 1 => {
                let j = r.below(v.len());
                let i = i.min(v.len() - 1);
                v.swap(i, j);
            }
            _ => v.insert(i, *r.pick(&a)),
        }
    }
    v.into_iter().collect()
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule(
        "A case takes one pattern text, valid or mutated, decides acceptance with an \
         independent recogniser and evaluates tag patterns on all 8100 tags, occurrence \
         patterns on all 1101 occurrences and code lists on all 62 codes (in paths, filters \
         and cardinalities). A situation is the kind of every position and the number of tags \
         matched, the range of occurrences, or the number of codes of a list.",
    );
    let tags = all_tags();
    let occs = all_occs();
    let mut all = b"012A ".to_vec();
    for k in CODES {
        all.extend([0x1f, *k, *k]);
    }
    all.extend(b"\x1e\n");
    ctx.run("tag-patterns", 700, 30_000, |c| {
        let t = generate::tag(&mut c.r);
        let p = TagPat::near(&mut c.r, &t, 100);
        let text = p.text();
        c.sample(|| json!(text));
        if read_tag_pattern(text.as_bytes()).as_ref().map(TagPat::text) != Some(text.clone()) {
            return inconclusive(format!("the model does not read {text}"));
        }
        check_tag_pattern(c, &text, &tags)
    });
    // every class of every position, exhaustively for pairs of characters
    let mut singles = vec![];
    for (i, a) in ALPHABETS.iter().enumerate() {
        for x in *a {
            for y in *a {
                for form in [format!("[{}-{}]", *x as char, *y as char), format!("[{}{}]", *x as char, *y as char)] {
                    let mut parts = vec![".".to_string(); 4];
                    parts[i] = form;
                    singles.push(parts.concat());
                }
            }
        }
    }
    let few: Vec<[u8; 4]> = tags
        .iter()
        .copied()
        .filter(|t| t[1..3] == *b"12" || (t[0] == b'0' && t[3] == b'A'))
        .collect();
    ctx.run("tag-ranges", singles.len() as u64, singles.len() as u64, |c| {
        check_tag_pattern(c, &singles[c.idx as usize], &few)
    });
    ctx.run("tag-texts", 30_000, 1_500_000, |c| {
        let t = generate::tag(&mut c.r);
        let text = TagPat::near(&mut c.r, &t, 70).text();
        let text = mutate(&mut c.r, &text, "012349AZ@a[]-. *é");
        check_tag_pattern(c, &text, &few[..20])
    });
    let mut occ_texts: Vec<String> = vec!["".into(), "/00".into(), "/*".into(), "/".into()];
    occ_texts.extend((0..100).map(|n| format!("/{n:02}")));
    occ_texts.extend((0..1000).map(|n| format!("/{n:03}")));
    ctx.run("occurrences", occ_texts.len() as u64, occ_texts.len() as u64, |c| {
        check_occ_pattern(c, &occ_texts[c.idx as usize], &occs)
    });
    ctx.run("occurrence-ranges", 10_000, 10_000, |c| {
        let (a, b) = (c.idx / 100, c.idx % 100);
        check_occ_pattern(c, &format!("/{a:02}-{b:02}"), &occs)
    });
    ctx.run("occurrence-ranges3", 5_000, 1_000_000, |c| {
        let (a, b) = if c.quick() {
            (c.r.below(1000) as u64, c.r.below(1000) as u64)
        } else {
            (c.idx / 1000, c.idx % 1000)
        };
        check_occ_pattern(c, &format!("/{a:03}-{b:03}"), &occs)
    });
    ctx.run("occurrence-texts", 30_000, 1_000_000, |c| {
        let o = generate::occ(&mut c.r);
        let text = OccPat::near(&mut c.r, o.as_deref()).text(&mut c.r);
        let text = mutate(&mut c.r, &text, "0123456789/-* a");
        check_occ_pattern(c, &text, &occs[..30])
    });
    let mut code_texts: Vec<String> = (0..128u8).map(|b| (b as char).to_string()).collect();
    for a in CODES {
        for b in CODES {
            code_texts.push(format!("[{}-{}]", *a as char, *b as char));
        }
    }
    ctx.run("codes", code_texts.len() as u64, code_texts.len() as u64, |c| {
        let t = &code_texts[c.idx as usize];
        if matches!(t.as_bytes()[0], b'$' | b' ' | b'\t' | b'\n' | b'\r') {
            return Ok(());
        }
        check_codes(c, t, &all)
    });
    ctx.run("code-lists", 8_000, 300_000, |c| {
        let mut text = Codes::random(&mut c.r).text();
        if c.r.bool() {
            text = mutate(&mut c.r, &text, "a09Z[]-*.!_");
        }
        check_codes(c, &text, &all)
    });
    ctx.exhausted(
        "all one- and two-character classes of every tag position; all single occurrences and \
         all 10000 pairs of two-digit bounds on all 1101 occurrences; all single codes and all \
         3844 code ranges on all 62 codes",
    );
    if !ctx.quick() {
        ctx.exhausted("all 1000000 pairs of three-digit bounds");
    }
    ctx.require("tag evaluations", 100_000);
    ctx.require("texts that are no tag pattern", 1000);
    ctx.require("texts that are no occurrence pattern", 1000);
}

// ---------------------------------------------------------------- C05

pub fn mopts(r: &mut Rng) -> MOpts {
    MOpts {
        ignore_case: r.chance(1, 3),
        threshold: if r.bool() { 0.8 } else { *r.pick(&[0.0, 0.25, 0.5, 0.75, 0.99]) },
    }
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule(
        "A case evaluates one path, written in two random notations (shorthand, curly, dollar, \
         parentheses, white space), with random options on several records as bytes, as a \
         reference and as text, and compares all values in order with the model. A situation \
         is pattern kind, occurrence kind, number of code groups, condition and number of \
         values.",
    );
    ctx.run("paths", 20_000, 1_500_000, |c| {
        let o = Opts {
            utf8: c.r.chance(2, 3),
            max_fields: *c.r.pick(&[3, 8, 20]),
            ..Default::default()
        };
        let mut recs: Vec<Rec> = (0..3).map(|_| generate::record(&mut c.r, &o)).collect();
        if c.idx % 500 == 3 {
            let many: Vec<Fld> = (0..1500).map(|_| generate::field(&mut c.r, &o)).collect();
            recs[0].fields.extend(many);
        }
        let p = query::Path::random(&mut c.r, Some(&recs[0]));
        let m = mopts(&mut c.r);
        let mut n = 0;
        let st = Style::random(&mut c.r);
        let a = p.text(&mut c.r, &st);
        let st = Style::random(&mut c.r);
        let b = p.text(&mut c.r, &st);
        c.sample(|| json!({"path": a, "same": b, "record": show(&recs[0].encode())}));
        for text in [&a, &b] {
            let path = Path::new(text).map_err(|e| format!("{text:?}: {e}"))?;
            for rec in &recs {
                let want = p.values(rec, &m);
                let enc = rec.encode();
                let ctx = || format!("path {text:?} options {m:?} record '{}'", show(&enc));
                let r = RecordRef::from_bytes(&enc).map_err(|e| e.to_string())?;
                let got: Vec<Vec<u8>> = r.path(&path, &opts(&m)).map(|v| v.to_vec()).collect();
                let lst = |v: &Vec<Vec<u8>>| format!("{:?}", v.iter().map(|v| show(v)).collect::<Vec<_>>());
                same("values", &got, &want, lst, ctx)?;
                let first = r.first(&path, &opts(&m)).map(|v| v.to_vec());
                if first.as_ref() != want.first() {
                    return Err(format!("first value {first:?}; {}", ctx()));
                }
                if r.ppn().map(|v| v.to_vec()).as_deref() != rec.ppn() {
                    return Err(format!("PPN; {}", ctx()));
                }
                let byte = ByteRecord::from_bytes(&enc).map_err(|e| e.to_string())?;
                let got: Vec<Vec<u8>> = byte.path(&path, &opts(&m)).map(|v| v.to_vec()).collect();
                same("values of the byte record", &got, &want, lst, ctx)?;
                if let Ok(s) = StringRecord::try_from(byte) {
                    let got: Vec<Vec<u8>> =
                        s.path(&path, &opts(&m)).map(|v| v.as_bytes().to_vec()).collect();
                    same("values of the text record", &got, &want, lst, ctx)?;
                    if s.ppn().map(|v| v.as_bytes()) != rec.ppn() {
                        return Err(format!("PPN of the text record; {}", ctx()));
                    }
                    let first = s.first(&path, &opts(&m)).map(|v| v.as_bytes().to_vec());
                    if first.as_ref() != want.first() {
                        return Err(format!("first value of the text record; {}", ctx()));
                    }
                    c.count("text records", 1);
                }
                n += want.len();
                c.count("values compared", want.len() as u64);
            }
        }
        let mut kinds = vec![];
        if let Some(s) = &p.cond {
            s.kinds(&mut kinds);
            kinds.sort();
            kinds.dedup();
        }
        c.sig(&format!(
            "{}/{}/{}/{}/{}",
            p.tag.is_literal(),
            match p.occ {
                OccPat::None => "none",
                OccPat::Any => "any",
                OccPat::Exact(_) => "exact",
                OccPat::Range(..) => "range",
            },
            p.codes.len(),
            kinds.concat(),
            n.min(6)
        ));
        Ok(())
    });
    ctx.require("values compared", 10_000);
}
