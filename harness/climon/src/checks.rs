//! C25 and C26: the check command.
use std::collections::{BTreeMap, BTreeSet};

use model::expr::Cond;
use model::generate::{self, Opts};
use model::mon::*;
use model::query::{Path, QOpts, Query, Rows};
use model::rec::*;
use model::rng::Rng;
use model::text::{NFS, Nf};
use serde_json::json;

use crate::cli::*;
use crate::lists::write_list;
use crate::records::place;
use crate::tables::{Quotes, TableDest, csv_rows, lossy, query_for, same_table};

pub fn toml_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            c if c.is_control() => out += &format!("\\u{:04x}", c as u32),
            c => out.push(c),
        }
    }
    out + "\""
}

fn toml_literal(r: &mut Rng, s: &str) -> String {
    let plain = !s.contains('\'') && !s.chars().any(|c| c.is_control() && c != '\t');
    if plain && r.bool() { format!("'{s}'") } else { toml_str(s) }
}

pub enum Kind {
    Allow { path: Path, values: BTreeSet<Vec<u8>> },
    DateTime { path: Path, format: Option<String>, offset: usize },
    Duplicates { query: Query, threshold: usize, separator: String },
    Filter { cond: Cond, invert: bool },
    Isni { path: Path, prefix: Option<String> },
    Iso639 { path: Path },
    Jel { path: Path },
    Link { source: Path, target: Path, filter: Option<Cond> },
    Unicode { nf: Option<Nf> },
}

pub struct Rule {
    id: String,
    name: &'static str,
    level: &'static str,
    tags: Option<Vec<String>>,
    opts: model::expr::MOpts,
    kind: Kind,
}

struct Set {
    scope: Option<Cond>,
    fast: bool,
    rules: Vec<Rule>,
}

pub fn iso_codes() -> BTreeSet<Vec<u8>> {
    include_str!("../data/iso639-2b.txt").lines().map(|l| l.as_bytes().to_vec()).collect()
}

pub fn jel_codes() -> BTreeSet<Vec<u8>> {
    include_str!("../data/jel.txt").lines().map(|l| l.as_bytes().to_vec()).collect()
}

/// ISO 7064 MOD 11-2: the check character of digits.
fn check_char(digits: &[u8]) -> u8 {
    let sum = digits.iter().fold(0u32, |s, d| (s + u32::from(d - b'0')) * 2 % 11);
    match (12 - sum) % 11 {
        10 => b'X',
        n => b'0' + n as u8,
    }
}

/// Is the value a valid ISNI (in which spaces and punctuation do not count)?
fn valid_isni(v: &[u8]) -> bool {
    let v: Vec<u8> = v.iter().copied().filter(|b| *b >= b'0').collect();
    v.len() == 16 && v[..15].iter().all(|b| b.is_ascii_digit()) && check_char(&v[..15]) == v[15]
}

fn days(y: u32, m: u32) -> u32 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => 0,
    }
}

/// The answer of the calendar, for values in the usual form.
fn calendar(v: &[u8]) -> Option<bool> {
    let usual = v.len() == 10
        && v.iter().enumerate().all(|(i, b)| if i == 4 || i == 7 { *b == b'-' } else { b.is_ascii_digit() });
    if !usual {
        return None;
    }
    let s = std::str::from_utf8(v).unwrap();
    let (y, m, d): (u32, u32, u32) = (s[..4].parse().ok()?, s[5..7].parse().ok()?, s[8..].parse().ok()?);
    Some(d >= 1 && d <= days(y, m))
}

fn valid_date(v: &[u8], format: &str, offset: usize) -> bool {
    if offset >= v.len() {
        return false;
    }
    if format == "%Y-%m-%d"
        && let Some(valid) = calendar(&v[offset..])
    {
        return valid;
    }
    jiff::civil::DateTime::strptime(format, &v[offset..]).is_ok()
}

fn joined(values: Vec<Vec<u8>>) -> Option<Option<String>> {
    if values.is_empty() {
        return None;
    }
    Some(Some(values.iter().map(|v| lossy(v)).collect::<Vec<_>>().join(", ")))
}

impl Kind {
    /// The message, if the record breaks the rule.
    fn check(&self, rec: &Rec, o: &model::expr::MOpts) -> Option<Option<String>> {
        let bad = |p: &Path, ok: &dyn Fn(&[u8]) -> bool| {
            joined(p.values(rec, o).into_iter().filter(|v| !ok(v)).collect())
        };
        match self {
            Kind::Allow { path, values } => bad(path, &|v| values.contains(v)),
            Kind::DateTime { path, format, offset } => {
                bad(path, &|v| valid_date(v, format.as_deref().unwrap_or("%Y-%m-%d"), *offset))
            }
            Kind::Duplicates { query, threshold, separator } => {
                let mut n: BTreeMap<Vec<Vec<u8>>, usize> = BTreeMap::new();
                for row in query.eval(rec, &QOpts { m: *o, ..Default::default() }) {
                    if row.iter().any(|c| !c.is_empty()) {
                        *n.entry(row).or_default() += 1;
                    }
                }
                let mut rows: Vec<String> = n
                    .into_iter()
                    .filter(|(_, n)| n >= threshold)
                    .map(|(row, _)| row.iter().map(|c| lossy(c)).collect::<Vec<_>>().join(separator))
                    .collect();
                rows.sort();
                if rows.is_empty() { None } else { Some(Some(rows.join("; "))) }
            }
            Kind::Filter { cond, invert } => (cond.eval(rec, o) != *invert).then_some(None),
            Kind::Isni { path, prefix } => bad(path, &|v| match prefix {
                None => valid_isni(v),
                Some(p) => v.strip_prefix(p.as_bytes()).is_none_or(valid_isni),
            }),
            Kind::Iso639 { path } => {
                let codes = iso_codes();
                bad(path, &|v| codes.contains(v))
            }
            Kind::Jel { path } => {
                let codes = jel_codes();
                bad(path, &|v| codes.contains(v))
            }
            Kind::Link { .. } => None,
            Kind::Unicode { nf } => {
                if !rec.is_utf8() {
                    return Some(None);
                }
                let nf = (*nf)?;
                joined(
                    rec.fields
                        .iter()
                        .flat_map(|f| &f.subs)
                        .filter(|s| nf.apply(&lossy(&s.value)).as_bytes() != s.value)
                        .map(|s| s.value.clone())
                        .collect(),
                )
            }
        }
    }
}

struct Finding {
    ppn: Vec<u8>,
    rule: String,
    level: &'static str,
    message: Option<String>,
}

/// What the check command must report.
fn report(sets: &[Set], recs: &[&Rec]) -> Vec<Finding> {
    let mut out = vec![];
    // (set, rule) -> PPN -> references
    let mut refs: BTreeMap<(usize, usize), BTreeMap<Vec<u8>, Vec<Vec<u8>>>> = BTreeMap::new();
    let mut targets: BTreeMap<(usize, usize), BTreeSet<Vec<u8>>> = BTreeMap::new();
    for rec in recs {
        let ppn = rec.ppn().unwrap_or_default().to_vec();
        for (i, set) in sets.iter().enumerate() {
            for (k, rule) in set.rules.iter().enumerate() {
                if let Kind::Link { target, filter, .. } = &rule.kind
                    && filter.as_ref().is_none_or(|f| f.eval(rec, &rule.opts))
                {
                    targets.entry((i, k)).or_default().extend(target.values(rec, &rule.opts));
                }
            }
            if set.scope.as_ref().is_some_and(|s| !s.eval(rec, &Default::default())) {
                continue;
            }
            for (k, rule) in set.rules.iter().enumerate() {
                if let Kind::Link { source, .. } = &rule.kind {
                    let v = source.values(rec, &rule.opts);
                    refs.entry((i, k)).or_default().entry(ppn.clone()).or_default().extend(v);
                } else if let Some(message) = rule.kind.check(rec, &rule.opts) {
                    out.push(Finding { ppn: ppn.clone(), rule: rule.id.clone(), level: rule.level, message });
                    if set.fast {
                        break;
                    }
                }
            }
        }
    }
    for ((i, k), refs) in refs {
        let none = BTreeSet::new();
        let known = targets.get(&(i, k)).unwrap_or(&none);
        for (ppn, values) in refs {
            if let Some(message) = joined(values.into_iter().filter(|v| !known.contains(v)).collect()) {
                let rule = &sets[i].rules[k];
                out.push(Finding { ppn, rule: rule.id.clone(), level: rule.level, message });
            }
        }
    }
    out
}

fn special_value(r: &mut Rng, name: &str) -> String {
    match name {
        "datetime" => {
            let mut s = match r.below(6) {
                0 => format!("{:04}-{:02}-{:02}", r.range(1890, 2030), r.range(0, 13), r.range(0, 32)),
                1 => format!("{:02}.{:02}.{:04}", r.range(1, 31), r.range(1, 12), r.range(1890, 2030)),
                2 => format!("{:04}{:02}{:02}", r.range(1890, 2030), r.range(1, 12), r.range(1, 31)),
                3 => r.pick(&["2024-02-30", "2000-02-29", "1900-02-29", "2023-02-29", "0000-01-01", "9999-12-31"]).to_string(),
                4 => format!("2024-{}-{}", r.range(1, 12), r.range(1, 31)),
                _ => r.pick(&["", "2024", "2024-01", "heute", "2024-01-01T10:11:12", "-2024-01-01", "2024-01-01 ", "２０２４-01-01"]).to_string(),
            };
            if r.chance(1, 4) {
                s = format!("{}{s}", r.pick(&["S", "am ", "ü"]));
            }
            if r.chance(1, 8) {
                s.push_str(r.pick(&["x", " ", "Z"]));
            }
            s
        }
        "isni" => {
            let mut d: Vec<u8> = (0..15).map(|_| b'0' + r.below(10) as u8).collect();
            if r.bool() {
                d[..4].copy_from_slice(b"0000");
            }
            d.push(check_char(&d));
            match r.below(8) {
                0 => {
                    let i = r.below(16);
                    d[i] = b'0' + r.below(10) as u8;
                }
                1 => {
                    let i = r.below(15);
                    d.swap(i, i + 1);
                }
                2 => {
                    let i = r.below(16);
                    d.remove(i);
                }
                3 => {
                    let i = r.below(16);
                    d[i] = *r.pick(b"XxAa:Oz");
                }
                4 => d.push(b'0' + r.below(10) as u8),
                5 => {
                    let i = r.below(17);
                    d.insert(i, *r.pick(b"/:;@A_x|~\t"));
                }
                _ => {}
            }
            let mut s = String::from_utf8(d).unwrap();
            if r.bool() {
                let n = s.len().min(16);
                for i in (1..4).rev() {
                    if i * 4 < n {
                        s.insert_str(i * 4, r.pick(&[" ", "-", "."]));
                    }
                }
            }
            match r.below(6) {
                0 => format!("ISNI {s}"),
                1 => format!("(isni){s}"),
                2 => r.pick(&["", "ISNI ", "0000", "ISNI"]).to_string(),
                _ => s,
            }
        }
        "iso639-2b" => match r.below(5) {
            0 => (0..3).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
            1 => r.pick(&["", "GER", "de", "deu", "ger ", "eng;ger", "fra", "zz"]).to_string(),
            _ => r.pick(&["ger", "eng", "fre", "aar", "zza", "mis", "und", "zxx"]).to_string(),
        },
        "jelc" => match r.below(4) {
            0 => format!("{}{:02}", (b'A' + r.below(26) as u8) as char, r.below(100)),
            1 => format!("{}{}", (b'A' + r.below(26) as u8) as char, r.below(10)),
            2 => r.pick(&["", "A", "a10", "A10 ", "A100", "Z39", "A00"]).to_string(),
            _ => r.pick(&["A10", "B0", "Y92", "Q5", "C99", "K00"]).to_string(),
        },
        "unicode" => r.pick(&["é", "e\u{301}", "ﬁ", "①", "\u{212b}", "Å", "abc", "\u{1e9b}\u{323}", "한", "각", "", "ü", "u\u{308}", "\u{0344}", "x\u{0301}\u{0323}"]).to_string(),
        _ => String::from_utf8(generate::ppn_value(r)).unwrap(),
    }
}

pub const SPECIAL: [&str; 9] =
    ["allow", "datetime", "duplicates", "filter", "isni", "iso639-2b", "jelc", "link", "unicode"];

fn rule_path(r: &mut Rng, recs: &[&Rec], name: &str) -> (Path, String) {
    if r.chance(2, 3) {
        // where the special values are
        let i = SPECIAL.iter().position(|s| *s == name).unwrap();
        let tag = format!("0{}9X", i + 1);
        let p = Path {
            tag: model::expr::TagPat::lit(&tag),
            occ: model::expr::OccPat::None,
            codes: vec![model::expr::Codes::One(b'a')],
            cond: None,
        };
        let t = format!("{tag}.a");
        return (p, t);
    }
    let x = if recs.is_empty() { None } else { Some(*r.pick(recs)) };
    path_text(r, x, false)
}

pub fn random_rule(r: &mut Rng, w: &Work, recs: &[&Rec], name: &'static str, id: String, n: usize) -> (Rule, String) {
    let mut t = format!("[rule.{}]\n", toml_str(&id));
    let mut keys: Vec<String> = vec![format!("check = {}", toml_literal(r, name))];
    let level = *r.pick(&["error", "error", "warning", "info"]);
    if level != "error" || r.chance(1, 4) {
        keys.push(format!("level = \"{level}\""));
    }
    if r.chance(1, 5) {
        keys.push("description = \"beschreibt\"".into());
    }
    if r.chance(1, 8) {
        keys.push("link = \"https://example.org\"".into());
    }
    let tags = r.chance(1, 2).then(|| {
        let n = r.below(3);
        (0..n).map(|_| r.pick(&["t1", "t2", "ü"]).to_string()).collect::<Vec<_>>()
    });
    if let Some(tags) = &tags {
        keys.push(format!("tags = [{}]", tags.iter().map(|t| toml_str(t)).collect::<Vec<_>>().join(", ")));
    }
    let mut opts = model::expr::MOpts::default();
    if name != "unicode" {
        let often = if r.kin > 0 { 2 } else { 4 };
        if r.chance(1, often) {
            opts.ignore_case = true;
            keys.push("case-ignore = true".into());
        }
        if r.chance(1, often) {
            opts.threshold = *r.pick(&[0.0, 0.25, 0.5, 0.75, 0.9, 1.0]);
            keys.push(format!("strsim-threshold = {:?}", opts.threshold));
        }
    }
    let some = Rec { fields: vec![generate::ppn_field(r)] };
    let pick = |r: &mut Rng| if recs.is_empty() { some.clone() } else { (*r.pick(recs)).clone() };
    let kind = match name {
        "allow" => {
            let (path, pt) = rule_path(r, recs, name);
            let mut values: Vec<String> = vec![];
            for _ in 0..r.below(6) {
                let x = pick(r);
                let all = path.values(&x, &opts);
                if !all.is_empty()
                    && let Ok(s) = std::str::from_utf8(r.pick(&all[..]))
                    && !s.is_empty()
                    && !s.contains(['\r', '\n', '\0'])
                {
                    values.push(s.to_string());
                }
                values.push(r.pick(&["119232022", "1", "x"]).to_string());
            }
            let column = *r.pick(&["id", "ppn", "idn", "a b"]);
            let file = write_list(r, w, &format!("allow{n}"), &values, Some(column));
            keys.push(format!("path = {}", toml_literal(r, &pt)));
            let file = toml_str(&file);
            if r.bool() {
                keys.push(format!("list.filename = {file}"));
                keys.push(format!("list.column = {}", toml_str(column)));
            } else {
                keys.push(format!("list = {{ filename = {file}, column = {} }}", toml_str(column)));
            }
            Kind::Allow { path, values: values.into_iter().map(String::into_bytes).collect() }
        }
        "datetime" => {
            let (path, pt) = rule_path(r, recs, name);
            keys.push(format!("path = {}", toml_literal(r, &pt)));
            let format = r.chance(1, 3).then(|| r.pick(&["%Y-%m-%d", "%d.%m.%Y", "%Y%m%d", "%Y-%m-%dT%H:%M:%S"]).to_string());
            if let Some(f) = &format {
                keys.push(format!("format = {}", toml_literal(r, f)));
            }
            let offset = if r.chance(1, 3) { r.below(5) } else { 0 };
            if offset > 0 || r.chance(1, 8) {
                keys.push(format!("offset = {offset}"));
            }
            Kind::DateTime { path, format, offset }
        }
        "duplicates" => {
            let (query, qt) = if r.bool() {
                let (p, t) = rule_path(r, recs, name);
                (Query(vec![model::query::QFrag::Path(p)]), t)
            } else {
                query_for(r, recs, &QOpts { m: opts, ..Default::default() }, false)
            };
            keys.push(format!("query = {}", toml_literal(r, &qt)));
            let threshold = if r.chance(1, 3) { r.range(1, 4) } else { 2 };
            if threshold != 2 {
                keys.push(format!("threshold = {threshold}"));
            }
            let separator = if r.chance(1, 3) { r.pick(&["", ",", "; ", "ü"]).to_string() } else { "|".into() };
            if separator != "|" {
                keys.push(format!("separator = {}", toml_str(&separator)));
            }
            Kind::Duplicates { query, threshold, separator }
        }
        "filter" => {
            let x = pick(r);
            let (cond, ct) = cond_text(r, &x, 1);
            keys.push(format!("filter = {}", toml_literal(r, &ct)));
            let invert = r.chance(1, 3);
            if invert {
                keys.push("invert-match = true".into());
            }
            Kind::Filter { cond, invert }
        }
        "isni" => {
            let (path, pt) = rule_path(r, recs, name);
            keys.push(format!("path = {}", toml_literal(r, &pt)));
            let prefix = r.chance(1, 3).then(|| r.pick(&["ISNI ", "(isni)", "0", ""]).to_string());
            if let Some(p) = &prefix {
                keys.push(format!("prefix = {}", toml_str(p)));
            }
            Kind::Isni { path, prefix }
        }
        "iso639-2b" | "jelc" => {
            let (path, pt) = rule_path(r, recs, name);
            keys.push(format!("path = {}", toml_literal(r, &pt)));
            if name == "jelc" { Kind::Jel { path } } else { Kind::Iso639 { path } }
        }
        "link" => {
            let (source, st) = rule_path(r, recs, name);
            let (target, tt) = if r.chance(3, 4) {
                let p = Path {
                    tag: model::expr::TagPat::lit("003@"),
                    occ: model::expr::OccPat::None,
                    codes: vec![model::expr::Codes::One(b'0')],
                    cond: None,
                };
                (p, "003@.0".to_string())
            } else {
                let x = pick(r);
                path_text(r, Some(&x), false)
            };
            let filter = r.chance(1, if r.kin > 0 { 2 } else { 3 }).then(|| {
                let x = pick(r);
                cond_text(r, &x, 1)
            });
            keys.push(format!("source.path = {}", toml_literal(r, &st)));
            keys.push(format!("target.path = {}", toml_literal(r, &tt)));
            if let Some((_, t)) = &filter {
                keys.push(format!("target.filter = {}", toml_literal(r, t)));
            }
            Kind::Link { source, target, filter: filter.map(|f| f.0) }
        }
        _ => {
            let nf = r.chance(4, 5).then(|| *r.pick(&NFS));
            if let Some(nf) = nf {
                keys.push(format!("normalization = \"{}\"", nf.name()));
            }
            Kind::Unicode { nf }
        }
    };
    r.shuffle(&mut keys);
    t += &keys.join("\n");
    t += "\n\n";
    (Rule { id, name, level, tags, opts, kind }, t)
}

/// A field with values for rules of the kind.
pub fn special_field(r: &mut Rng, name: &str) -> Fld {
    let i = SPECIAL.iter().position(|s| *s == name).unwrap();
    let n = r.below(4);
    let mut subs: Vec<Sub> = (0..n)
        .map(|_| Sub {
            code: if r.chance(4, 5) { b'a' } else { generate::code(r) },
            value: special_value(r, name).into_bytes(),
        })
        .collect();
    if r.chance(1, 4) && !subs.is_empty() {
        let s = r.pick(&subs).clone();
        subs.push(s);
    }
    let tag = format!("0{}9X", i + 1).into_bytes().try_into().unwrap();
    Fld { tag, occ: None, subs }
}

fn workload(ctx: &Ctx, c: &mut Case, names: &[&'static str]) -> Verdict {
    if c.r.chance(1, 4) {
        generate::use_kin(&mut c.r);
    }
    let w = Work::new(ctx, c);
    let o = Opts { utf8: c.r.chance(4, 5), max_fields: 4, ..Default::default() };
    let mut ls = stream(&mut c.r, 12, &o);
    for l in ls.iter_mut() {
        let mut rec = Rec::decode(l).unwrap();
        let n = c.r.below(4);
        for _ in 0..n {
            let name = if c.r.chance(4, 5) { *c.r.pick(names) } else { *c.r.pick(&SPECIAL) };
            rec.fields.push(special_field(&mut c.r, name));
        }
        *l = rec.encode();
    }
    let bad = if c.r.chance(1, 5) { c.r.range(1, 2) } else { 0 };
    spoil(&mut c.r, &mut ls, bad);
    let inp = input(&mut c.r, &w, ls);
    let recs = inp.recs();
    let mut sel = if c.r.chance(1, 3) {
        Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true })
    } else {
        Sel::all()
    };
    sel.skip = bad > 0;
    let mut o = sel.args(&mut c.r, &w);
    let mut sets = vec![];
    let mut files = vec![];
    let mut texts = String::new();
    let ids = ["R1", "R10", "R2", "a", "Ü", "b c", "R001", "x-1", "X_1", "Z"];
    let nsets = match c.r.below(20) {
        0 => c.r.range(3, 20),
        1..=5 => 2,
        _ => 1,
    };
    for i in 0..nsets {
        let mut text = String::new();
        let scope = c.r.chance(1, 3).then(|| {
            let x = if recs.is_empty() { Rec { fields: vec![generate::ppn_field(&mut c.r)] } } else { (*c.r.pick(&recs)).clone() };
            cond_text(&mut c.r, &x, 1)
        });
        if let Some((_, t)) = &scope {
            text += &format!("scope = {}\n", toml_literal(&mut c.r, t));
        }
        let fast = c.r.chance(1, 3);
        if fast || c.r.chance(1, 6) {
            text += &format!("termination = \"{}\"\n", if fast { "fast" } else { "default" });
        }
        text.push('\n');
        let mut rules: Vec<Rule> = vec![];
        let many = if c.r.chance(1, 25) { 40 } else { 4 };
        for n in 0..c.r.range(1, many) {
            let id = if many > 4 { format!("N{n}") } else { c.r.pick(&ids).to_string() };
            if rules.iter().any(|r| r.id == id) {
                continue;
            }
            let name = *c.r.pick(names);
            let (rule, t) = random_rule(&mut c.r, &w, &recs, name, id, i * 100 + n);
            rules.push(rule);
            text += &t;
        }
        rules.sort_by(|a, b| a.id.cmp(&b.id));
        files.push(w.write(&format!("rules{i}.toml"), text.as_bytes()));
        texts += &format!("\n--- rules{i}.toml\n{text}");
        sets.push(Set { scope: scope.map(|s| s.0), fast, rules });
    }
    for f in &files {
        o.extend([if c.r.bool() { "-R" } else { "--rule-set" }.into(), f.clone()]);
    }
    // a choice of rules
    if c.r.chance(1, 4) {
        let mut keep: Vec<Box<dyn Fn(&str) -> bool>> = vec![];
        for _ in 0..c.r.range(1, 2) {
            let id = c.r.pick(&ids).to_string();
            let (re, f): (String, Box<dyn Fn(&str) -> bool>) = match c.r.below(9) {
                0 | 1 => (format!("^{id}$"), Box::new(move |s| s == id)),
                2 => (id.clone(), Box::new(move |s| s.contains(&id[..]))),
                3 => ("^[rnxz]".into(), Box::new(|s| s.starts_with(['r', 'n', 'x', 'z']))),
                4 => ("(?i)^[rx]".into(), Box::new(|s| s.starts_with(['r', 'x', 'R', 'X']))),
                5 => ("[01]$".into(), Box::new(|s| s.ends_with(['0', '1']))),
                6 => ("^..?$".into(), Box::new(|s| s.chars().count() <= 2)),
                7 => ("^R".into(), Box::new(|s| s.starts_with('R'))),
                _ => ("1".into(), Box::new(|s| s.contains('1'))),
            };
            o.extend([if c.r.bool() { "-r" } else { "--rule" }.into(), re]);
            keep.push(f);
        }
        for s in &mut sets {
            s.rules.retain(|r| keep.iter().any(|f| f(&r.id)));
        }
    }
    if c.r.chance(1, 5) {
        let tags = *c.r.pick(&["t1", "t1,t2", "t2, ü", "none", "ü"]);
        o.extend([if c.r.bool() { "-t" } else { "--tags" }.into(), tags.into()]);
        let tags: Vec<&str> = tags.split(',').map(str::trim).collect();
        for s in &mut sets {
            s.rules.retain(|r| r.tags.as_ref().is_some_and(|t| t.iter().any(|t| tags.contains(&&t[..]))));
        }
    }
    let tsv = c.r.chance(1, 4);
    let mut dest = TableDest::random(&mut c.r, &w, false, tsv);
    let txt = dest.kind != "stdout" && c.r.chance(1, 4);
    let delimiter = if dest.kind != "stdout" && tsv && !txt { b'\t' } else { b',' };
    if txt {
        dest = TableDest::named(&w, "out.txt");
    }
    o.extend(dest.args.clone());
    let args = place(&mut c.r, &["check"], o, inp.args.clone());
    let chosen = sel.select(&recs);
    let want = report(&sets, &chosen);
    let out = w.run_with(&args, &inp.setup())?;
    let info = || format!("{}{texts}{}", cmdline(&args), inp.describe());
    out.ok().map_err(|e| format!("{e}; {}", info()))?;
    let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
    let mut rows: Rows = want
        .iter()
        .map(|f| {
            if txt {
                return vec![f.ppn.clone()];
            }
            vec![
                f.ppn.clone(),
                f.rule.clone().into_bytes(),
                f.level.as_bytes().to_vec(),
                f.message.clone().unwrap_or_default().into_bytes(),
            ]
        })
        .collect();
    if !txt && !rows.is_empty() {
        rows.insert(0, ["ppn", "rule", "level", "message"].iter().map(|s| s.as_bytes().to_vec()).collect());
    }
    same_table(&got, &rows, delimiter, Quotes::Necessary, info)?;
    if c.r.chance(1, 8) {
        let again = w.run_with(&args, &inp.setup())?;
        again.ok()?;
        same_output(&dest.result(&w, &again)?, &got, || format!("a second run; {}", info()))?;
        c.count("runs repeated", 1);
    }
    for f in &want {
        for s in &sets {
            if let Some(r) = s.rules.iter().find(|r| r.id == f.rule) {
                c.count(&format!("violations of {} rules", r.name), 1);
                break;
            }
        }
    }
    let n: usize = sets.iter().map(|s| s.rules.len()).sum();
    c.count("rules evaluated on records", (n * chosen.len()) as u64);
    let mut kinds: Vec<&str> = sets.iter().flat_map(|s| &s.rules).map(|r| r.name).collect();
    kinds.sort();
    c.sig(&format!(
        "{kinds:?}/{:?}/{}/{txt}{}/{}",
        sets.iter().map(|s| (s.fast, s.scope.is_some())).collect::<Vec<_>>(),
        dest.kind, sel.sig(), want.len().min(6)
    ));
    c.sample(|| json!({"command": cmdline(&args), "rules": kinds, "records": chosen.len(), "violations": want.len()}));
    Ok(())
}

const RECORD: [&str; 7] = ["allow", "datetime", "filter", "isni", "iso639-2b", "jelc", "unicode"];

/// Checks one value per record with one rule.
fn values(ctx: &Ctx, c: &mut Case, rule: &str, values: &[Vec<u8>], ok: impl Fn(&[u8]) -> bool) -> Verdict {
    let w = Work::new(ctx, c);
    let mut data = vec![];
    let mut want: Vec<Vec<u8>> = vec![];
    for (i, v) in values.iter().enumerate() {
        let subs = vec![Sub { code: b'a', value: v.clone() }];
        let rec = Rec {
            fields: vec![
                Fld { tag: *b"003@", occ: None, subs: vec![Sub { code: b'0', value: i.to_string().into_bytes() }] },
                Fld { tag: *b"012A", occ: None, subs },
            ],
        };
        data.extend(rec.encode());
        if !ok(v) {
            want.push(i.to_string().into_bytes());
        }
    }
    let f = w.write("in.dat", &data);
    let rules = w.write("rules.toml", format!("[rule.X]\npath = \"012A.a\"\n{rule}\n").as_bytes());
    let out = w.run(&words(&["check", "-R", &rules, &f]), b"")?;
    let got = csv_rows(out.ok()?, b',')?;
    let ppns: Vec<Vec<u8>> = got.iter().skip(1).map(|r| r[0].clone()).collect();
    c.count("values checked", values.len() as u64);
    c.count("values reported", want.len() as u64);
    c.sig(rule);
    if ppns != want {
        let i = (0..values.len())
            .find(|i| {
                let p = i.to_string().into_bytes();
                ppns.contains(&p) != want.contains(&p)
            })
            .unwrap_or(0);
        let is = ppns.contains(&i.to_string().into_bytes());
        return Err(format!("value '{}' is {}reported by the rule {rule}", show(&values[i]), if is { "" } else { "not " }));
    }
    Ok(())
}

pub fn c25(ctx: &mut Ctx) {
    ctx.rule(
        "A case writes one or two rule sets with random rules of the record-level checks \
         (scope, termination, level, tags, options; lists for allow rules), runs pica check over \
         records with valid, nearly valid and other values and compares the report (CSV, TSV, \
         TXT) row by row with the model. A second workload runs all three-letter and JEL-like \
         codes, all dates of selected years and all single errors in ISNIs through the rules. \
         A situation is the kinds of rules with set options, destination and number of \
         violations.",
    );
    ctx.run("rules", 1_800, 70_000, |c| workload(ctx, c, &RECORD));
    ctx.run("values", 6, 6, |c| match c.idx {
        0 => {
            let codes = iso_codes();
            let mut v: Vec<Vec<u8>> = vec![];
            for a in b'a'..=b'z' {
                for b in b'a'..=b'z' {
                    for d in b'a'..=b'z' {
                        v.push(vec![a, b, d]);
                    }
                }
            }
            for x in codes.iter() {
                v.push(x.to_ascii_uppercase());
                v.push(x[..2].to_vec());
                v.push([&x[..], b"a"].concat());
                v.push([b" ", &x[..]].concat());
            }
            values(ctx, c, "check = \"iso639-2b\"", &v, |v| codes.contains(v))
        }
        1 => {
            let codes = jel_codes();
            let mut v: Vec<Vec<u8>> = vec![];
            for a in b'A'..=b'Z' {
                v.push(vec![a]);
                for n in 0..10 {
                    v.push(format!("{}{n}", a as char).into_bytes());
                    v.push(format!("{}{n}", a.to_ascii_lowercase() as char).into_bytes());
                }
                for n in 0..100 {
                    v.push(format!("{}{n:02}", a as char).into_bytes());
                    v.push(format!("{}{n:03}", a as char).into_bytes());
                }
            }
            values(ctx, c, "check = \"jelc\"", &v, |v| codes.contains(v))
        }
        2 => {
            let mut v: Vec<Vec<u8>> = vec![];
            for y in [0, 1, 1583, 1900, 1999, 2000, 2023, 2024, 2100, 9999] {
                for m in 0..=13 {
                    for d in 0..=32 {
                        v.push(format!("{y:04}-{m:02}-{d:02}").into_bytes());
                    }
                }
            }
            values(ctx, c, "check = \"datetime\"", &v, |v| calendar(v) == Some(true))
        }
        3 | 4 => {
            let base: &[u8] = if c.idx == 3 { b"0000000121032683" } else { b"000000012146438X" };
            let mut v = vec![base.to_vec()];
            for i in 0..16 {
                for b in b"0123456789XxA:/ " {
                    let mut x = base.to_vec();
                    x[i] = *b;
                    v.push(x);
                }
                let mut x = base.to_vec();
                x.remove(i);
                v.push(x);
                for t in (0x20u8..0x7f).map(|b| (b as char).to_string()).chain(["é", "–", "\u{a0}", "٣"].map(String::from)) {
                    let mut x = base.to_vec();
                    x.splice(i..i, t.bytes());
                    v.push(x);
                }
                for j in i..16 {
                    let mut x = base.to_vec();
                    x.swap(i, j);
                    v.push(x);
                }
            }
            values(ctx, c, "check = \"isni\"", &v, valid_isni)
        }
        _ => {
            let chars: Vec<Vec<u8>> = (0x20..0x30000u32)
                .filter_map(char::from_u32)
                .map(|c| format!("a{c}").into_bytes())
                .collect();
            let nf = Nf::Nfc;
            values(ctx, c, "check = \"unicode\"\nnormalization = \"nfc\"\n#", &chars, |v| {
                nf.apply(&lossy(v)).as_bytes() == v
            })
        }
    });
    for n in RECORD {
        ctx.require(&format!("violations of {n} rules"), 40);
    }
    ctx.require("values reported", 10_000);
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule(
        "A case writes one or two rule sets with random duplicates and link rules (and some \
         others), runs pica check over records that refer to each other before and after, to \
         themselves, to records out of scope and to missing ones, in one to three inputs, and \
         compares the report row by row with the model; a second workload runs permutations of \
         the records and compares the sets of findings. A situation is the kinds of rules with \
         set options, destination and number of violations.",
    );
    ctx.run("rules", 1_800, 70_000, |c| {
        workload(ctx, c, &["duplicates", "link", "duplicates", "link", "filter"])
    });
    ctx.run("order", 300, 10_000, |c| {
        let w = Work::new(ctx, c);
        // a graph of references with known gaps
        let n = c.r.range(1, 12);
        let mut want = BTreeMap::new();
        let mut ls: Vec<Vec<u8>> = vec![];
        for i in 0..n {
            let mut subs = vec![];
            for _ in 0..c.r.below(4) {
                let k = c.r.below(n + 3);
                subs.push(Sub { code: b'9', value: format!("p{k}").into_bytes() });
                if k >= n {
                    want.entry(format!("p{i}")).or_insert_with(Vec::new).push(format!("p{k}"));
                }
            }
            let ppn = vec![Sub { code: b'0', value: format!("p{i}").into_bytes() }];
            ls.push(
                Rec {
                    fields: vec![
                        Fld { tag: *b"003@", occ: None, subs: ppn },
                        Fld { tag: *b"029A", occ: None, subs },
                    ],
                }
                .encode(),
            );
        }
        let rules = w.write(
            "r.toml",
            b"[rule.L]\ncheck = \"link\"\nsource.path = \"029A.9\"\ntarget.path = \"003@.0\"\n",
        );
        let want: Vec<(String, String)> = want.into_iter().map(|(k, v)| (k, v.join(", "))).collect();
        for round in 0..3 {
            c.r.shuffle(&mut ls);
            let inp = input_as(&mut c.r, &w, ls.clone(), &format!("in{round}-"));
            let mut args = words(&["check", "-R", &rules]);
            args.extend(inp.args.clone());
            let out = w.run_with(&args, &inp.setup())?;
            let mut got: Vec<(String, String)> =
                csv_rows(out.ok()?, b',')?.iter().skip(1).map(|r| (lossy(&r[0]), lossy(&r[3]))).collect();
            got.sort();
            let mut want = want.clone();
            want.sort();
            if got != want {
                return Err(format!("reported {got:?} instead of {want:?}; {}{}", cmdline(&args), inp.describe()));
            }
            c.count("orders tried", 1);
            c.count("broken links reported", got.len() as u64);
        }
        c.sig(&format!("order/{n}/{}", want.len()));
        Ok(())
    });
    ctx.require("violations of duplicates rules", 200);
    ctx.require("violations of link rules", 200);
    ctx.require("broken links reported", 200);
}
