//! C20 to C24, C28 and C29: commands that tabulate and convert records.
use std::collections::{BTreeMap, BTreeSet};

use model::mon::*;
use model::expr::{Codes, OccPat, Style, TagPat};
use model::generate::{self, Opts};
use model::query::{Path, QFrag, QOpts, Query, Rows};
use model::rec::*;
use model::rng::Rng;
use model::text::{NFS, Nf, normalize};
use serde_json::{Value, json};

use crate::cli::*;
use crate::records::{case_lines, discard, keep, place, predicates};

pub fn lossy(v: &[u8]) -> String {
    String::from_utf8_lossy(v).into_owned()
}

// ---------------------------------------------------------------- CSV

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Quotes {
    Always,
    Necessary,
    NonNumeric,
    Never,
}

impl Quotes {
    fn name(self) -> &'static str {
        match self {
            Quotes::Always => "always",
            Quotes::Necessary => "necessary",
            Quotes::NonNumeric => "non-numeric",
            Quotes::Never => "never",
        }
    }
}

/// The table as CSV (TSV).
pub fn csv_text(rows: &[Vec<Vec<u8>>], delimiter: u8, quotes: Quotes) -> Vec<u8> {
    let mut out = vec![];
    for row in rows {
        for (i, cell) in row.iter().enumerate() {
            if i > 0 {
                out.push(delimiter);
            }
            let special = cell.iter().any(|b| matches!(b, b'"' | b'\n' | b'\r') || *b == delimiter);
            // the only cell of a row would be an empty line
            let lonely = row.len() == 1 && cell.is_empty();
            let numeric = std::str::from_utf8(cell).is_ok_and(|s| s.parse::<f64>().is_ok());
            let quote = match quotes {
                Quotes::Always => true,
                Quotes::Necessary => special || lonely,
                Quotes::NonNumeric => !numeric || special,
                Quotes::Never => lonely,
            };
            if !quote {
                out.extend_from_slice(cell);
                continue;
            }
            out.push(b'"');
            for b in cell {
                if *b == b'"' {
                    out.push(b'"');
                }
                out.push(*b);
            }
            out.push(b'"');
        }
        out.push(b'\n');
    }
    out
}

/// Reads CSV (TSV) strictly.
pub fn csv_rows(data: &[u8], delimiter: u8) -> Result<Rows, String> {
    let mut rows = vec![];
    let mut i = 0;
    while i < data.len() {
        let mut row = vec![];
        loop {
            let mut cell = vec![];
            if data.get(i) == Some(&b'"') {
                i += 1;
                loop {
                    match data.get(i) {
                        None => return Err("unclosed quote".into()),
                        Some(b'"') if data.get(i + 1) == Some(&b'"') => {
                            cell.push(b'"');
                            i += 2;
                        }
                        Some(b'"') => {
                            i += 1;
                            break;
                        }
                        Some(b) => {
                            cell.push(*b);
                            i += 1;
                        }
                    }
                }
            } else {
                while let Some(b) = data.get(i).filter(|b| !matches!(b, b'\n' | b'"') && **b != delimiter) {
                    cell.push(*b);
                    i += 1;
                }
            }
            row.push(cell);
            match data.get(i) {
                Some(b) if *b == delimiter => i += 1,
                Some(b'\n') => {
                    i += 1;
                    break;
                }
                None => return Err("the last line has no end".into()),
                Some(b) => return Err(format!("byte {b:#x} after a quoted cell")),
            }
        }
        rows.push(row);
    }
    Ok(rows)
}

/// Compares a table with the expected one.
pub fn same_table(
    got: &[u8],
    want: &[Vec<Vec<u8>>],
    delimiter: u8,
    quotes: Quotes,
    info: impl Fn() -> String,
) -> Verdict {
    if quotes != Quotes::Never {
        let rows = csv_rows(got, delimiter).map_err(|e| format!("not well-formed: {e}; {}", info()))?;
        for i in 0..rows.len().max(want.len()) {
            if rows.get(i) != want.get(i) {
                let t = |r: Option<&Vec<Vec<u8>>>| {
                    r.map_or("(end)".into(), |r| {
                        r.iter().map(|c| format!("'{}'", show(c))).collect::<Vec<_>>().join(" ")
                    })
                };
                return Err(format!(
                    "row {} should be\n    {}\n  but is\n    {}\n  {}",
                    i + 1,
                    t(want.get(i)),
                    t(rows.get(i)),
                    info()
                ));
            }
        }
        if quotes == Quotes::Necessary {
            // where quotes are necessary is not specified further
            return Ok(());
        }
    }
    same_output(got, &csv_text(want, delimiter, quotes), info)
}

/// A header and its cells.
fn header(r: &mut Rng, cols: usize) -> (String, Vec<Vec<u8>>) {
    let n = if r.chance(1, 12) { cols + 1 } else { cols };
    let cells: Vec<&str> = (0..n).map(|_| *r.pick(&["a", "b c", "ü", "", "x\"y", "t\tu", "1"])).collect();
    let sep = *r.pick(&[",", ", ", " ,"]);
    let text = cells.join(sep);
    let cells = text.split(',').map(|c| c.trim().as_bytes().to_vec()).collect();
    (text, cells)
}

pub fn query_for(r: &mut Rng, recs: &[&Rec], o: &QOpts, fields_only: bool) -> (Query, String) {
    loop {
        let x = if recs.is_empty() || r.chance(1, 15) { None } else { Some(*r.pick(recs)) };
        let mut q = Query::random(r, x);
        if fields_only {
            q.0.retain(|f| matches!(f, QFrag::Path(_)));
        }
        if q.0.is_empty() || recs.iter().map(|rec| q.size(rec, o)).max().unwrap_or(0) > 3000 {
            continue;
        }
        let st = model::expr::Style::random(r);
        let t = q.text(r, &st);
        if passable(&t) && !t.starts_with('-') {
            return (q, t);
        }
    }
}

pub fn query_opts(r: &mut Rng, o: &mut Vec<String>, sel: &Sel) -> QOpts {
    let mut q = QOpts { m: sel.mopts(), ..Default::default() };
    match r.below(4) {
        0 => {
            q.squash = true;
            o.push("--squash".into());
        }
        1 => {
            q.merge = true;
            o.push("--merge".into());
        }
        _ => {}
    }
    if r.chance(1, 3) {
        q.separator = r.pick(&["|", "", ",", "; ", "\"", "ü", "--"]).to_string();
        o.push(format!("--separator={}", q.separator));
    }
    q
}

fn nf_option(r: &mut Rng, o: &mut Vec<String>) -> Option<Nf> {
    if !r.chance(1, 4) {
        return None;
    }
    let nf = *r.pick(&NFS);
    if r.bool() {
        o.push(format!("--translit={}", nf.name()));
    } else {
        o.extend(["--translit".into(), nf.name().into()]);
    }
    Some(nf)
}

/// Records with the same few fields, so that many rows are equal or nearly so.
fn alike(r: &mut Rng, n: usize) -> Vec<Rec> {
    let mut f = Fld { tag: *b"012A", occ: None, subs: vec![] };
    for code in [b'a', b'b', b'c'] {
        let value = generate::text(r, &Opts::clean()).into_bytes();
        f.subs.push(Sub { code, value });
    }
    let mut all = vec![f];
    let mut out = vec![];
    for _ in 0..n {
        let mut fields = vec![];
        for _ in 0..if r.chance(1, 3) { r.range(1, 4) } else { 1 } {
            let mut g = r.pick(&all).clone();
            for _ in 0..r.below(3) {
                generate::similar(r, &mut g);
            }
            all.push(g.clone());
            fields.push(g);
        }
        out.push(Rec { fields });
    }
    out
}

/// A query for such records.
fn query_alike(r: &mut Rng) -> (Query, String) {
    let mut codes: Vec<Codes> = vec![Codes::One(b'a'), Codes::One(b'b'), Codes::One(b'c')];
    if r.bool() {
        codes.remove(r.below(3));
    }
    let (tag, one) = (TagPat::near(r, b"012A", 0), r.bool());
    let path = |codes| QFrag::Path(Path { tag: tag.clone(), occ: OccPat::Any, codes, cond: None });
    let q = match one {
        true => Query(vec![path(codes)]),
        false => Query(codes.into_iter().map(|c| path(vec![c])).collect()),
    };
    let st = Style::random(r);
    let t = q.text(r, &st);
    (q, t)
}

/// A query for the records of `bulk`.
fn query_many(r: &mut Rng) -> (Query, String) {
    let path = |tag: &[u8; 4], code, r: &mut Rng| {
        QFrag::Path(Path { tag: TagPat::near(r, tag, 0), occ: OccPat::Any, codes: vec![Codes::One(code)], cond: None })
    };
    let mut parts = vec![path(b"012A", b'a', r)];
    if r.bool() {
        parts.push(path(b"003@", b'0', r));
    }
    let q = Query(parts);
    let st = Style::random(r);
    let t = q.text(r, &st);
    (q, t)
}

/// The first invalid lines to be skipped and the selection.
pub struct Basics {
    pub inp: Input,
    pub sel: Sel,
    pub opts: Vec<String>,
    pub bad: usize,
}

pub fn basics(c: &mut Case, w: &Work, max: usize) -> Basics {
    let mut ls = case_lines(c, max);
    basics_of(c, w, &mut ls)
}

pub fn basics_of(c: &mut Case, w: &Work, ls: &mut Vec<Vec<u8>>) -> Basics {
    let bad = if c.r.chance(1, 4) { c.r.range(1, 3) } else { 0 };
    spoil(&mut c.r, ls, bad);
    let inp = input(&mut c.r, w, ls.clone());
    let recs = inp.recs();
    let mut sel = if c.r.chance(2, 3) {
        Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true })
    } else {
        Sel::all()
    };
    sel.skip = bad > 0;
    let opts = sel.args(&mut c.r, w);
    Basics { inp, sel, opts, bad }
}

pub struct TableDest {
    pub args: Vec<String>,
    file: Option<&'static str>,
    before: Vec<u8>,
    pub kind: &'static str,
}

impl TableDest {
    pub fn random(r: &mut Rng, w: &Work, append: bool, tsv: bool) -> TableDest {
        let mut d = TableDest { args: vec![], file: None, before: vec![], kind: "stdout" };
        let name = if tsv { "out.tsv" } else { "out.csv" };
        match r.below(if append { 6 } else { 5 }) {
            0..=2 => return d,
            3 => d.kind = "file",
            4 => {
                d.kind = "overwrite";
                w.write(name, &vec![b'z'; 4000]);
            }
            _ => {
                d.kind = "append";
                d.args.push("--append".into());
                if r.chance(3, 4) {
                    d.before = b"x,y\n1,2\n".to_vec();
                    w.write(name, &d.before);
                }
            }
        }
        d.file = Some(name);
        d.args.extend([if r.bool() { "-o" } else { "--output" }.into(), w.path(name)]);
        d
    }

    pub fn named(w: &Work, name: &'static str) -> TableDest {
        let args = vec!["-o".into(), w.path(name)];
        TableDest { args, file: Some(name), before: vec![], kind: "named" }
    }

    pub fn result(&self, w: &Work, out: &Out) -> Result<Vec<u8>, String> {
        let Some(f) = self.file else { return Ok(out.out.clone()) };
        if !out.out.is_empty() {
            return Err(format!("output on stdout despite -o: '{}'", show(&out.out)));
        }
        let d = w.read(f)?;
        match d.strip_prefix(&self.before[..]) {
            Some(d) => Ok(d.to_vec()),
            None => Err(format!("--append lost the content of the file: '{}'", show(&d))),
        }
    }
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica select with a random query (paths, formats, literals), options \
         (--squash, --merge, --separator, --unique, --no-empty-columns, --translit, --tsv, \
         --quote-style, --header, --append), selection, inputs and destination, reads the \
         table with a strict CSV reader of the harness and compares every cell with the model. \
         A situation is the options with the shape of the query and the number of rows.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let similar = c.name != "many" && c.r.chance(1, 4);
        let b = if similar {
            let n = c.r.range(2, 30);
            let mut ls: Vec<Vec<u8>> = alike(&mut c.r, n).iter().map(Rec::encode).collect();
            basics_of(c, &w, &mut ls)
        } else {
            basics(c, &w, 10)
        };
        let mut o = b.opts.clone();
        let recs = b.inp.recs();
        let qo = query_opts(&mut c.r, &mut o, &b.sel);
        let (q, qtext) = if similar {
            query_alike(&mut c.r)
        } else if c.name == "many" {
            query_many(&mut c.r)
        } else { query_for(&mut c.r, &recs, &qo, false) };
        let no_empty = c.r.chance(1, 4);
        let unique = c.r.chance(if similar { 3 } else { 1 }, 4);
        let tsv = c.r.chance(1, 3);
        if no_empty {
            o.push("--no-empty-columns".into());
        }
        if unique {
            o.push(if c.r.bool() { "-u" } else { "--unique" }.into());
        }
        if tsv {
            o.push(if c.r.bool() { "-t" } else { "--tsv" }.into());
        }
        let nf = nf_option(&mut c.r, &mut o);
        let quotes = if c.r.chance(1, 3) {
            let s = *c.r.pick(&[Quotes::Always, Quotes::Necessary, Quotes::NonNumeric, Quotes::Never]);
            o.push(format!("--quote-style={}", s.name()));
            s
        } else {
            Quotes::Necessary
        };
        let head = c.r.chance(1, 3).then(|| header(&mut c.r, q.columns()));
        if let Some((t, _)) = &head {
            o.push(format!("--header={t}"));
        }
        let dest = TableDest::random(&mut c.r, &w, true, tsv);
        o.extend(dest.args.clone());
        let mut pos = vec![qtext];
        pos.extend(b.inp.args.clone());
        let args = place(&mut c.r, &["select"], o, pos);
        // the model
        let chosen = b.sel.select(&recs);
        let mut rows: Rows = vec![];
        let mut seen = BTreeSet::new();
        let mut dropped = [0u64; 3];
        for rec in &chosen {
            for row in q.eval(rec, &qo) {
                if no_empty && row.iter().any(|c| c.is_empty()) {
                    dropped[0] += 1;
                } else if unique && !seen.insert(row.clone()) {
                    dropped[1] += 1;
                } else if row.iter().all(|c| c.is_empty()) {
                    dropped[2] += 1;
                } else if nf.is_some() {
                    rows.push(row.iter().map(|c| normalize(nf, &lossy(c)).into_bytes()).collect());
                } else {
                    rows.push(row);
                }
            }
        }
        let out = w.run_with(&args, &b.inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), b.inp.describe());
        c.sig(&format!(
            "{}/{}/{}{}{}{}{no_empty}{unique}{tsv}{quotes:?}{}{}/{}",
            q.0.len(), q.columns(), qo.squash, qo.merge, qo.separator, nf.is_some(),
            head.is_some(), dest.kind, rows.len().min(5)
        ));
        if let Some((_, cells)) = &head {
            if cells.len() != q.columns() && !rows.is_empty() {
                c.count("headers of the wrong width", 1);
                return out.failed().map_err(|e| format!("header of the wrong width: {e}; {}", info()));
            }
            rows.insert(0, cells.clone());
        }
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_table(&got, &rows, if tsv { b'\t' } else { b',' }, quotes, info)?;
        c.count("rows compared", rows.len() as u64);
        c.count("cells compared", rows.iter().map(|r| r.len() as u64).sum());
        c.count("rows with empty columns left out", dropped[0]);
        c.count("repeated rows left out", dropped[1]);
        c.count("empty rows left out", dropped[2]);
        c.sample(|| json!({"command": cmdline(&args), "records": chosen.len(), "rows": rows.len()}));
        Ok(())
    };
    ctx.run("select", 1_700, 60_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("rows compared", 1_000);
    ctx.require("repeated rows left out", 100);
    ctx.require("rows with empty columns left out", 100);
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica frequency with a random query, options (--squash, --merge, \
         --separator, --unique, --reverse, -n, --threshold, --header, --tsv, --translit), \
         selection, inputs and destination over records with many repeated values, reads the \
         table with a strict CSV reader of the harness and compares rows, counts and order with \
         the model, and a second run with the first. A situation is the options with the number \
         of rows and of different counts.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let similar = c.name != "many" && c.r.chance(1, 6);
        let mut ls = if similar {
            let n = c.r.range(2, 30);
            alike(&mut c.r, n).iter().map(Rec::encode).collect()
        } else {
            case_lines(c, 12)
        };
        if c.name == "many" {
            // a value that is there very often
            let n = generate::edge(&mut c.r, 15, 17);
            if c.r.bool() {
                let x = format!("003@ \u{1f}0heavy\u{1e}012A {}\u{1e}\n", "\u{1f}aheavy".repeat(n));
                ls.push(x.into_bytes());
            } else {
                let x = b"003@ \x1f0heavy\x1e012A \x1faheavy\x1e\n".to_vec();
                let at = c.r.below(ls.len() + 1);
                let tail = ls.split_off(at);
                ls.extend(std::iter::repeat_n(x, n));
                ls.extend(tail);
            }
        }
        // more repetitions
        for _ in 0..c.r.below(30) {
            if !ls.is_empty() {
                let l = c.r.pick(&ls).clone();
                ls.push(l);
            }
        }
        let b = basics_of(c, &w, &mut ls);
        let mut o = b.opts.clone();
        let recs = b.inp.recs();
        let qo = query_opts(&mut c.r, &mut o, &b.sel);
        let (q, qtext) = if similar {
            query_alike(&mut c.r)
        } else if c.name == "many" {
            query_many(&mut c.r)
        } else { query_for(&mut c.r, &recs, &qo, false) };
        let unique = c.r.chance(1, 3);
        let reverse = c.r.chance(1, 3);
        let tsv = c.r.chance(1, 3);
        if unique {
            o.push(if c.r.bool() { "-u" } else { "--unique" }.into());
        }
        if reverse {
            o.push(if c.r.bool() { "-r" } else { "--reverse" }.into());
        }
        if tsv {
            o.push(if c.r.bool() { "-t" } else { "--tsv" }.into());
        }
        let chosen = b.sel.select(&recs);
        let mut table: BTreeMap<Vec<Vec<u8>>, u64> = BTreeMap::new();
        for rec in &chosen {
            let mut seen = BTreeSet::new();
            for row in q.eval(rec, &qo) {
                if row.iter().all(|c| c.is_empty()) || unique && !seen.insert(row.clone()) {
                    continue;
                }
                *table.entry(row).or_default() += 1;
            }
        }
        let n = if c.r.chance(1, 3) { c.r.range(0, table.len() + 1) } else { 0 };
        if n > 0 {
            o.push("-n".into());
            o.push(n.to_string());
        }
        let max = table.values().max().copied().unwrap_or(0);
        let threshold = if c.r.chance(1, 3) { c.r.range(0, max as usize + 1) as u64 } else { 0 };
        if threshold > 0 || c.r.chance(1, 10) {
            o.push("--threshold".into());
            o.push(threshold.to_string());
        }
        let nf = nf_option(&mut c.r, &mut o);
        let head = c.r.chance(1, 3).then(|| header(&mut c.r, q.columns() + 1));
        if let Some((t, _)) = &head {
            o.push(format!("--header={t}"));
        }
        let dest = TableDest::random(&mut c.r, &w, false, tsv);
        o.extend(dest.args.clone());
        let mut pos = vec![qtext];
        pos.extend(b.inp.args.clone());
        let cmd = if c.r.chance(1, 5) { "freq" } else { "frequency" };
        let args = place(&mut c.r, &[cmd], o, pos);
        // the model: BTreeMap iterates in lexicographic order, sorting is stable
        let mut sorted: Vec<_> = table.iter().filter(|(_, n)| **n >= threshold).collect();
        if reverse {
            sorted.sort_by_key(|(_, n)| **n);
        } else {
            sorted.sort_by_key(|(_, n)| u64::MAX - **n);
        }
        let counts: BTreeSet<u64> = sorted.iter().map(|(_, n)| **n).collect();
        let mut rows: Rows = sorted
            .iter()
            .take(if n > 0 { n } else { usize::MAX })
            .map(|(row, n)| {
                row.iter()
                    .map(|c| normalize(nf, &lossy(c)).into_bytes())
                    .chain([n.to_string().into_bytes()])
                    .collect()
            })
            .collect();
        let out = w.run_with(&args, &b.inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), b.inp.describe());
        c.sig(&format!(
            "{}/{}{}{unique}{reverse}{tsv}{}{}{}{}{}/{}/{}",
            q.columns(), qo.squash, qo.merge, nf.is_some(), head.is_some(), n.min(3),
            threshold.min(3), dest.kind, rows.len().min(6), counts.len().min(4)
        ));
        if let Some((_, cells)) = &head {
            if cells.len() != q.columns() + 1 && !rows.is_empty() {
                c.count("headers of the wrong width", 1);
                return out.failed().map_err(|e| format!("header of the wrong width: {e}; {}", info()));
            }
            rows.insert(0, cells.clone());
        }
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_table(&got, &rows, if tsv { b'\t' } else { b',' }, Quotes::Necessary, info)?;
        c.count("rows compared", rows.len() as u64);
        c.count("rows counted", table.values().sum());
        c.count("rows below the threshold or behind the limit", (table.len() - rows.len().min(table.len())) as u64);
        if c.r.chance(1, 6) {
            let again = w.run_with(&args, &b.inp.setup())?;
            again.ok()?;
            same_output(&dest.result(&w, &again)?, &got, || format!("a second run; {}", info()))?;
            c.count("runs repeated", 1);
        }
        c.sample(|| json!({"command": cmdline(&args), "records": chosen.len(), "rows": rows.len()}));
        Ok(())
    };
    ctx.run("frequency", 1_500, 60_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("rows compared", 1_000);
    ctx.require("rows below the threshold or behind the limit", 100);
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica count in one of its formats with random selection, inputs and \
         destination and compares the output with the numbers of the model, which must also \
         equal the number of separators of what pica filter or concat outputs. A situation is \
         the format, destination, selection and the magnitude of the counts.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let b = basics(c, &w, 14);
        let mut o = b.opts.clone();
        let recs = b.inp.recs();
        let chosen = b.sel.select(&recs);
        let n = chosen.len();
        let f: usize = chosen.iter().map(|r| r.fields.len()).sum();
        let s: usize = chosen.iter().flat_map(|r| &r.fields).map(|f| f.subs.len()).sum();
        let format = *c.r.pick(&["records", "fields", "subfields", "csv", "tsv", "csv", "tsv", "text"]);
        let no_header = matches!(format, "csv" | "tsv") && c.r.bool();
        let want = match format {
            "records" => format!("{n}\n"),
            "fields" => format!("{f}\n"),
            "subfields" => format!("{s}\n"),
            "csv" | "tsv" => {
                let t = if format == "csv" { "," } else { "\t" };
                let head = if no_header { String::new() } else { format!("records{t}fields{t}subfields\n") };
                format!("{head}{n}{t}{f}{t}{s}\n")
            }
            _ => format!("records: {n}\nfields: {f}\nsubfields: {s}\n"),
        };
        match format {
            "text" => {}
            "records" if c.r.bool() => o.push("-r".into()),
            _ => o.push(format!("--{format}")),
        }
        if no_header {
            o.push("--no-header".into());
        }
        let dest = TableDest::random(&mut c.r, &w, true, format == "tsv");
        o.extend(dest.args.clone());
        let args = place(&mut c.r, &["count"], o, b.inp.args.clone());
        let out = w.run_with(&args, &b.inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), b.inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_output(&got, want.as_bytes(), info)?;
        if c.r.chance(1, 4) && b.bad == 0 && b.sel.limit == 0 {
            // what the other commands output is what is counted
            let mut a2 = words(&["convert", "--to", "plus"]);
            a2.extend(b.inp.args.clone());
            let all = w.run_with(&a2, &b.inp.setup())?;
            let all = all.ok()?;
            let k = |x: u8| all.iter().filter(|b| **b == x).count();
            if b.sel.cond.is_none() && b.sel.allow.is_empty() && b.sel.deny.is_empty() && (k(b'\n'), k(0x1e), k(0x1f)) != (n, f, s) {
                return Err(format!("{} lines, {} fields and {} subfields; {}", k(b'\n'), k(0x1e), k(0x1f), info()));
            }
        }
        c.count("records counted", n as u64);
        c.count("subfields counted", s as u64);
        c.sig(&format!("{format}{no_header}{}{}{}/{}/{}", dest.kind, b.sel.sig(), b.bad, n.min(6), s.min(6)));
        c.sample(|| json!({"command": cmdline(&args), "records": n, "fields": f, "subfields": s}));
        Ok(())
    };
    ctx.run("count", 1_600, 60_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("records counted", 2_000);
}

type Counts = BTreeMap<String, BTreeMap<char, u64>>;

fn arrow_table(data: &[u8]) -> Result<(Vec<String>, Vec<Vec<String>>), String> {
    use polars::prelude::*;
    let df = IpcReader::new(std::io::Cursor::new(data)).finish().map_err(|e| format!("Arrow: {e}"))?;
    let names: Vec<String> = df.get_column_names().iter().map(|n| n.to_string()).collect();
    let mut rows = vec![vec![]; df.height()];
    for col in df.columns() {
        let s = col.cast(&DataType::String).map_err(|e| e.to_string())?;
        let s = s.str().map_err(|e| e.to_string())?;
        for (i, v) in s.iter().enumerate() {
            rows[i].push(v.unwrap_or("(null)").to_string());
        }
    }
    Ok((names, rows))
}

pub fn c23(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica describe with random selection, --keep, --discard and limit, writes \
         the table as CSV, TSV or Arrow (by option or extension, sometimes all three) and \
         compares header, rows and every count with the model and with the sum that pica count \
         reports; the table on standard output must not vary between two runs. A situation is \
         the format, the options, the numbers of tags and codes.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let b = basics(c, &w, 12);
        let mut o = b.opts.clone();
        let recs = b.inp.recs();
        let mut preds = [vec![], vec![]];
        for (i, name) in ["keep", "discard"].iter().enumerate() {
            if c.r.chance(1, 5) {
                let (p, t) = predicates(&mut c.r, &recs);
                o.push(if c.r.bool() { format!("--{name}") } else { format!("-{}", &name[..1]) });
                o.push(t);
                preds[i] = p;
            }
        }
        let chosen = b.sel.select(&recs);
        let mut counts: Counts = BTreeMap::new();
        let mut total = 0;
        for rec in &chosen {
            for f in keep(&discard(rec, &preds[1]), &preds[0]).fields {
                let t = counts.entry(f.tag_str().to_string()).or_default();
                for s in f.subs {
                    *t.entry(s.code as char).or_default() += 1;
                    total += 1;
                }
            }
        }
        let codes: BTreeSet<char> = counts.values().flat_map(|m| m.keys().copied()).collect();
        let names: Vec<String> = std::iter::once("field".into()).chain(codes.iter().map(|c| c.to_string())).collect();
        let rows: Vec<Vec<String>> = counts
            .iter()
            .map(|(tag, m)| {
                std::iter::once(tag.clone())
                    .chain(codes.iter().map(|c| m.get(c).copied().unwrap_or(0).to_string()))
                    .collect()
            })
            .collect();
        let mut formats = vec!["csv", "tsv", "arrow", "--csv", "--tsv"];
        if !c.r.chance(1, 4) {
            formats = vec![*c.r.pick(&formats)];
        }
        let mut last = String::new();
        for f in &formats {
            let (file, opt) = match *f {
                "csv" => ("out.csv", None),
                "tsv" => ("out.tsv", None),
                "arrow" => (*c.r.pick(&["out.arrow", "out.ipc", "out"]), None),
                "--csv" => (*c.r.pick(&["out.x", "out.csv"]), Some("csv")),
                _ => (*c.r.pick(&["out.x", "out.tsv", "out.csv"]), Some("tsv")),
            };
            let mut o = o.clone();
            if let Some(opt) = opt {
                o.push(if c.r.bool() { format!("--{opt}") } else { format!("-{}", &opt[..1]) });
            }
            if c.r.chance(1, 4) {
                w.write(file, &[b'z'; 5000]);
            }
            o.extend([if c.r.bool() { "-o" } else { "--output" }.into(), w.path(file)]);
            let args = place(&mut c.r, &["describe"], o, b.inp.args.clone());
            let out = w.run_with(&args, &b.inp.setup())?;
            let info = || format!("{}{}", cmdline(&args), b.inp.describe());
            last = cmdline(&args);
            out.ok().map_err(|e| format!("{e}; {}", info()))?;
            if !out.out.is_empty() {
                return Err(format!("output on stdout despite -o; {}", info()));
            }
            let data = w.read(file)?;
            let (n, r) = match *f {
                "arrow" => arrow_table(&data).map_err(|e| format!("{e}; {}", info()))?,
                _ => {
                    let d = if f.ends_with("csv") { b',' } else { b'\t' };
                    let mut t: Vec<Vec<String>> = csv_rows(&data, d)
                        .map_err(|e| format!("{e}; {}", info()))?
                        .iter()
                        .map(|r| r.iter().map(|c| lossy(c)).collect())
                        .collect();
                    if t.is_empty() {
                        return Err(format!("an empty table; {}", info()));
                    }
                    let n = t.remove(0);
                    (n, t)
                }
            };
            if (&n, &r) != (&names, &rows) {
                return Err(format!(
                    "the table should be\n    {names:?} {rows:?}\n  but is\n    {n:?} {r:?}\n  {}",
                    info()
                ));
            }
            c.count("tables compared", 1);
            c.count("counts compared", (rows.len() * codes.len()) as u64);
        }
        if c.r.chance(1, 6) {
            let args = place(&mut c.r, &["describe"], o.clone(), b.inp.args.clone());
            let one = w.run_with(&args, &b.inp.setup())?;
            let two = w.run_with(&args, &b.inp.setup())?;
            same_output(two.ok()?, one.ok()?, || format!("a second run; {}", cmdline(&args)))?;
            // the table shows up to 50 rows and 20 columns in full
            if rows.len() <= 50 && codes.len() < 20 {
                let text = lossy(one.ok()?);
                // narrow columns continue on further lines; tags have four characters
                let mut shown: Vec<Vec<String>> = vec![];
                for l in text.lines().filter(|l| l.starts_with(['│', '|'])) {
                    let cells: Vec<&str> = l.split(['│', '┆', '|']).map(str::trim).collect();
                    let cells = &cells[1..cells.len() - 1];
                    match shown.last_mut() {
                        Some(r) if r.len() == cells.len() && (r[0].len() < 4 || cells[0].is_empty()) => {
                            r.iter_mut().zip(cells).for_each(|(a, b)| a.push_str(b));
                        }
                        _ => shown.push(cells.iter().map(|c| c.to_string()).collect()),
                    }
                }
                for row in &rows {
                    let found = shown.contains(row);
                    if !found {
                        return Err(format!("no row {row:?} in the table on stdout\n{text}\n{}", cmdline(&args)));
                    }
                }
                c.count("tables on stdout compared", 1);
            }
        }
        if preds.iter().all(|p| p.is_empty()) && c.r.chance(1, 6) {
            let mut a = words(&["count", "--subfields"]);
            a.extend(b.opts.clone());
            a.extend(b.inp.args.clone());
            let out = w.run_with(&a, &b.inp.setup())?;
            if lossy(out.ok()?).trim() != total.to_string() {
                return Err(format!("count reports {} subfields, describe {total}; {last}", lossy(&out.out).trim()));
            }
            c.count("sums compared with count", 1);
        }
        c.sig(&format!(
            "{}/{}/{}{}/{}/{}/{}", formats[0], formats.len(), preds[0].len(), preds[1].len(),
            b.sel.sig(), rows.len().min(12), codes.len()
        ));
        c.sample(|| json!({"command": last, "tags": rows.len(), "codes": codes.len(), "subfields": total}));
        Ok(())
    };
    ctx.run("describe", 1_100, 40_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("counts compared", 5_000);
    ctx.require("tables on stdout compared", 50);
}

// ---------------------------------------------------------------- conversion

fn parse_field(f: &[u8], sub_sep: u8) -> Result<(Fld, usize), String> {
    // tag and occurrence up to the space
    let sp = f.iter().position(|b| *b == b' ').ok_or("no space after the tag")?;
    let tag: [u8; 4] = f.get(..4).and_then(|t| t.try_into().ok()).ok_or("short tag")?;
    let occ = match &f[4..sp] {
        [] => None,
        [b'/', o @ ..] => Some(o.to_vec()),
        _ => return Err("bad occurrence".into()),
    };
    let _ = sub_sep;
    Ok((Fld { tag, occ, subs: vec![] }, sp + 1))
}

fn parse_subs(data: &[u8]) -> Result<Vec<Sub>, String> {
    if data.is_empty() {
        return Ok(vec![]);
    }
    let mut parts = data.split(|b| *b == 0x1f);
    if !parts.next().unwrap().is_empty() {
        return Err("bytes before the first subfield".into());
    }
    parts
        .map(|p| p.split_first().map(|(c, v)| Sub { code: *c, value: v.to_vec() }).ok_or("no code".into()))
        .collect()
}

fn from_binary(data: &[u8]) -> Result<Vec<Rec>, String> {
    let mut recs = vec![];
    let mut i = 0;
    while i < data.len() {
        let mut fields = vec![];
        while data.get(i) != Some(&0x1d) {
            let n = data[i..].iter().position(|b| *b == 0x1e).ok_or("no end of the field")?;
            let f = &data[i..i + n];
            let (mut fld, k) = parse_field(f, 0x1f)?;
            fld.subs = parse_subs(&f[k..])?;
            fields.push(fld);
            i += n + 1;
        }
        i += 1;
        recs.push(Rec { fields });
    }
    Ok(recs)
}

fn from_import(data: &[u8]) -> Result<Vec<Rec>, String> {
    let mut recs: Vec<Rec> = vec![];
    if data.is_empty() {
        return Ok(recs);
    }
    let data = data.strip_suffix(b"\n").ok_or("no line end at the end")?;
    for l in data.split(|b| *b == b'\n') {
        match l {
            b"'\x1d" => recs.push(Rec { fields: vec![] }),
            [0x1e, f @ ..] => {
                let (mut fld, k) = parse_field(f, 0x1f)?;
                fld.subs = parse_subs(&f[k..])?;
                recs.last_mut().ok_or("a field before the first record")?.fields.push(fld);
            }
            _ => return Err(format!("unexpected line '{}'", show(l))),
        }
    }
    Ok(recs)
}

/// The fields of all records.
fn from_plain(data: &[u8]) -> Result<Vec<Fld>, String> {
    let mut out = vec![];
    if data.is_empty() {
        return Ok(out);
    }
    let data = data.strip_suffix(b"\n").ok_or("no line end at the end")?;
    for l in data.split(|b| *b == b'\n') {
        let (mut fld, k) = parse_field(l, b'$')?;
        let mut i = k;
        while i < l.len() {
            if l[i] != b'$' || i + 1 >= l.len() {
                return Err(format!("no subfield in line '{}'", show(l)));
            }
            let mut s = Sub { code: l[i + 1], value: vec![] };
            i += 2;
            while i < l.len() {
                match (l[i], l.get(i + 1)) {
                    (b'$', Some(b'$')) => {
                        s.value.push(b'$');
                        i += 2;
                    }
                    (b'$', _) => break,
                    (b, _) => {
                        s.value.push(b);
                        i += 1;
                    }
                }
            }
            fld.subs.push(s);
        }
        out.push(fld);
    }
    Ok(out)
}

fn from_json(data: &[u8]) -> Result<Vec<Rec>, String> {
    let v: Value = serde_json::from_slice(data).map_err(|e| format!("JSON: {e}"))?;
    let text = |v: &Value| v.as_str().map(|s| s.as_bytes().to_vec()).ok_or(format!("no text: {v}"));
    let mut recs = vec![];
    for rec in v.as_array().ok_or("no array of records")? {
        let mut fields = vec![];
        for f in rec.as_array().ok_or("no array of fields")? {
            let f = f.as_array().ok_or("no field")?;
            if f.len() < 2 || f.len() % 2 != 0 {
                return Err(format!("odd field {f:?}"));
            }
            let occ = match &f[1] {
                Value::Null => None,
                o => {
                    let o = text(o)?;
                    Some(o.strip_prefix(b"/").ok_or("occurrence without slash")?.to_vec())
                }
            };
            let tag = text(&f[0])?.try_into().map_err(|_| "bad tag")?;
            let subs = f[2..]
                .chunks(2)
                .map(|p| {
                    let c = text(&p[0])?;
                    if c.len() != 1 {
                        return Err(format!("bad code {}", p[0]));
                    }
                    Ok(Sub { code: c[0], value: text(&p[1])? })
                })
                .collect::<Result<_, String>>()?;
            fields.push(Fld { tag, occ, subs });
        }
        recs.push(Rec { fields });
    }
    Ok(recs)
}

pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}

/// A strict reader of the XML subset that the documents may use.
struct Xml<'a> {
    s: &'a str,
}

#[derive(Debug)]
enum Tok {
    Open(String, BTreeMap<String, String>, bool),
    Close(String),
    Text(String),
}

impl Xml<'_> {
    fn unescape(s: &str) -> Result<String, String> {
        let mut out = String::new();
        // the line ends of the document itself
        let s = s.replace("\r\n", "\n").replace('\r', "\n");
        let mut rest = &s[..];
        while let Some(i) = rest.find('&') {
            out += &rest[..i];
            let end = rest[i..].find(';').ok_or("'&' without ';'")? + i;
            let name = &rest[i + 1..end];
            match name {
                "lt" => out.push('<'),
                "gt" => out.push('>'),
                "amp" => out.push('&'),
                "apos" => out.push('\''),
                "quot" => out.push('"'),
                _ => {
                    let n = name.strip_prefix('#').ok_or(format!("entity {name}"))?;
                    let n = match n.strip_prefix('x') {
                        Some(h) => u32::from_str_radix(h, 16),
                        None => n.parse(),
                    };
                    let c = n.ok().and_then(char::from_u32).ok_or(format!("reference {name}"))?;
                    if !xml_char(c) {
                        return Err(format!("reference to {c:?}"));
                    }
                    out.push(c);
                }
            }
            rest = &rest[end + 1..];
        }
        out += rest;
        Ok(out)
    }

    fn next(&mut self) -> Result<Option<Tok>, String> {
        if self.s.is_empty() {
            return Ok(None);
        }
        if !self.s.starts_with('<') {
            let n = self.s.find('<').unwrap_or(self.s.len());
            let t = &self.s[..n];
            if t.contains("]]>") {
                return Err("']]>' in text".into());
            }
            let t = Self::unescape(t)?;
            self.s = &self.s[n..];
            return Ok(Some(Tok::Text(t)));
        }
        let n = self.s.find('>').ok_or("'<' without '>'")?;
        let inner = &self.s[1..n];
        self.s = &self.s[n + 1..];
        if let Some(name) = inner.strip_prefix('/') {
            return Ok(Some(Tok::Close(name.trim_end().into())));
        }
        let (inner, empty) = match inner.strip_suffix('/') {
            Some(i) => (i, true),
            None => (inner, false),
        };
        let end = inner.find(char::is_whitespace).unwrap_or(inner.len());
        let name = inner[..end].to_string();
        let mut attrs = BTreeMap::new();
        let mut rest = inner[end..].trim();
        while !rest.is_empty() {
            let eq = rest.find('=').ok_or("attribute without value")?;
            let key = rest[..eq].trim().to_string();
            let after = rest[eq + 1..].trim_start();
            let q = after.chars().next().filter(|c| matches!(c, '"' | '\'')).ok_or("unquoted attribute")?;
            let close = after[1..].find(q).ok_or("unclosed attribute")? + 1;
            if attrs.insert(key, Self::unescape(&after[1..close])?).is_some() {
                return Err("attribute given twice".into());
            }
            rest = after[close + 1..].trim_start();
        }
        Ok(Some(Tok::Open(name, attrs, empty)))
    }
}

/// The records and whether fields have occurrence attributes.
fn from_xml(data: &[u8]) -> Result<Vec<Rec>, String> {
    let s = std::str::from_utf8(data).map_err(|e| format!("XML: {e}"))?;
    if let Some(c) = s.chars().find(|c| !xml_char(*c)) {
        return Err(format!("character {c:?} is not allowed in XML"));
    }
    let end = s.find("?>").filter(|_| s.starts_with("<?xml ")).ok_or("no XML declaration")?;
    let mut x = Xml { s: &s[end + 2..] };
    let mut stack: Vec<String> = vec![];
    let mut recs: Vec<Rec> = vec![];
    let mut closed = false;
    while let Some(t) = x.next()? {
        match t {
            Tok::Open(name, attrs, empty) => {
                let parent = stack.last().map(|s| s.as_str());
                match (parent, &name[..]) {
                    (None, "collection") if !closed => {}
                    (Some("collection"), "record") => recs.push(Rec { fields: vec![] }),
                    (Some("record"), "datafield") => {
                        let tag = attrs.get("tag").ok_or("no tag")?.as_bytes().try_into().map_err(|_| "bad tag")?;
                        let occ = attrs.get("occurrence").map(|o| o.as_bytes().to_vec());
                        recs.last_mut().unwrap().fields.push(Fld { tag, occ, subs: vec![] });
                    }
                    (Some("datafield"), "subfield") => {
                        let code = attrs.get("code").filter(|c| c.len() == 1).ok_or("bad code")?.as_bytes()[0];
                        let f = recs.last_mut().unwrap().fields.last_mut().unwrap();
                        f.subs.push(Sub { code, value: vec![] });
                    }
                    (p, n) => return Err(format!("element {n} in {p:?}")),
                }
                if empty {
                    closed |= stack.is_empty();
                } else {
                    stack.push(name);
                }
            }
            Tok::Close(name) => {
                if stack.pop().as_deref() != Some(&name) {
                    return Err(format!("unexpected end of {name}"));
                }
                closed |= stack.is_empty();
            }
            Tok::Text(t) => {
                if stack.last().is_some_and(|s| s == "subfield") {
                    let f = recs.last_mut().unwrap().fields.last_mut().unwrap();
                    f.subs.last_mut().unwrap().value.extend(t.as_bytes());
                } else if !t.trim_matches([' ', '\t', '\r', '\n']).is_empty() {
                    return Err(format!("text '{t}' in {:?}", stack.last()));
                }
            }
        }
    }
    if !closed {
        return Err("the document is not complete".into());
    }
    Ok(recs)
}

fn recs_text(recs: &[Rec]) -> String {
    recs.iter().map(|r| format!("\n    {}", show(&r.encode()))).collect()
}

pub fn c24(ctx: &mut Ctx) {
    ctx.rule(
        "A case converts a stream of records (any values: text with all special characters, \
         control characters, bytes that are not UTF-8) to one of the formats with pica convert, \
         reads the result back with a decoder of the harness for that format and compares \
         records, fields, occurrences, codes and values; values that the format cannot \
         represent must be reported. A situation is format, destination and the classes of \
         values (special characters, empty, invalid) in the data.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let mut ls = case_lines(c, 8);
        // make most streams representable in all formats
        let clean = c.r.chance(2, 3);
        if clean {
            for l in ls.iter_mut() {
                let mut rec = Rec::decode(l).unwrap();
                for s in rec.fields.iter_mut().flat_map(|f| &mut f.subs) {
                    s.value = lossy(&s.value).chars().filter(|c| xml_char(*c)).collect::<String>().into_bytes();
                }
                *l = rec.encode();
            }
        }
        let bad = if c.r.chance(1, 4) { c.r.range(1, 3) } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let inp = input(&mut c.r, &w, ls);
        let recs: Vec<Rec> = inp.recs().into_iter().cloned().collect();
        let format = *c.r.pick(&["binary", "import", "json", "plain", "plus", "xml", "json", "xml", "plain"]);
        let mut o: Vec<String> = vec![];
        if bad > 0 {
            o.push(if c.r.bool() { "-s" } else { "--skip-invalid" }.into());
        }
        if c.r.bool() {
            o.extend(words(&["--from", "plus"]));
        }
        if format != "plus" || c.r.bool() {
            o.extend(words(&[if c.r.bool() { "-t" } else { "--to" }, format]));
        }
        let dest = TableDest::random(&mut c.r, &w, false, false);
        o.extend(dest.args.clone());
        let args = place(&mut c.r, &["convert"], o, inp.args.clone());
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        let mut classes = BTreeSet::new();
        for v in recs.iter().flat_map(|r| &r.fields).flat_map(|f| &f.subs).map(|s| &s.value) {
            match std::str::from_utf8(v) {
                Err(_) => {
                    classes.insert('\u{1}');
                }
                Ok(s) => {
                    classes.extend(s.chars().filter(|c| "<>&\"'$\\\r\t]".contains(*c)));
                    if s.chars().any(|c| !xml_char(c)) {
                        classes.insert('\u{2}');
                    }
                    if s.trim() != s {
                        classes.insert(' ');
                    }
                }
            }
        }
        c.sig(&format!("{format}/{}/{:?}/{}", dest.kind, classes, recs.len().min(3)));
        let impossible = match format {
            "json" => classes.contains(&'\u{1}'),
            "xml" => classes.contains(&'\u{1}') || classes.contains(&'\u{2}'),
            _ => false,
        };
        if impossible {
            c.count("streams that cannot be represented", 1);
            return out.failed().map_err(|e| format!("{e}; {}", info()));
        }
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        let wrong = |e: String| format!("{e}\n  in the output\n    {}\n  {}", show(&got), info());
        let back = match format {
            "binary" => from_binary(&got).map_err(wrong)?,
            "import" => from_import(&got).map_err(wrong)?,
            "json" => from_json(&got).map_err(wrong)?,
            "plain" => {
                let fields = from_plain(&got).map_err(wrong)?;
                let want: Vec<Fld> = recs.iter().flat_map(|r| r.fields.clone()).collect();
                if fields != want {
                    return Err(wrong("the fields of the plain output differ".into()));
                }
                recs.clone()
            }
            "xml" => {
                let mut back = from_xml(&got).map_err(wrong)?;
                let bare = |recs: &[Rec]| {
                    let mut r = recs.to_vec();
                    r.iter_mut().flat_map(|r| &mut r.fields).for_each(|f| f.occ = None);
                    r
                };
                if back != recs && back == bare(&recs) {
                    ctx.finding("xml-occurrence", "convert --to xml writes fields without their occurrence");
                    back = recs.clone();
                }
                back
            }
            _ => {
                same_output(&got, &concat(&inp.recs()), info)?;
                recs.clone()
            }
        };
        if back != recs {
            return Err(wrong(format!(
                "the {format} output reads as{}\n  instead of{}",
                recs_text(&back),
                recs_text(&recs)
            )));
        }
        c.count("records compared", recs.len() as u64);
        c.count("values compared", recs.iter().flat_map(|r| &r.fields).map(|f| f.subs.len() as u64).sum());
        c.sample(|| json!({"command": cmdline(&args), "records": recs.len(), "bytes": got.len()}));
        Ok(())
    };
    ctx.run("convert", 1_700, 70_000, &body);
    ctx.run("many", 4, 60, &body);
    // every character of the Basic Multilingual Plane and beyond
    ctx.run("characters", 24, 400, |c| {
        let w = Work::new(ctx, c);
        let n = if c.quick() { 24u32 } else { 400 };
        let step = 0x110000 / n + 1;
        let (lo, hi) = (c.idx as u32 * step, (c.idx as u32 + 1) * step);
        let chars: Vec<char> = (lo..hi).filter_map(char::from_u32).filter(|c| !matches!(c, '\n' | '\u{1e}' | '\u{1f}')).collect();
        for format in ["json", "xml", "plain", "binary", "import"] {
            let usable: Vec<char> = chars.iter().copied().filter(|c| format != "xml" || xml_char(*c)).collect();
            let recs: Vec<Rec> = usable
                .chunks(997)
                .map(|cs| Rec {
                    fields: vec![Fld {
                        tag: *b"012A",
                        occ: None,
                        subs: cs.iter().map(|c| Sub { code: b'a', value: format!("x{c}").into_bytes() }).collect(),
                    }],
                })
                .collect();
            let f = w.write("in.dat", &recs.iter().flat_map(|r| r.encode()).collect::<Vec<_>>());
            let args = words(&["convert", "--to", format, &f]);
            let out = w.run(&args, b"")?;
            let got = out.ok().map_err(|e| format!("{e}; characters {lo:#x} to {hi:#x}"))?;
            let back = match format {
                "json" => from_json(got)?,
                "xml" => from_xml(got)?,
                "binary" => from_binary(got)?,
                "import" => from_import(got)?,
                _ => {
                    let f = from_plain(got)?;
                    f.into_iter().map(|f| Rec { fields: vec![f] }).collect()
                }
            };
            if back != recs {
                let vals = |r: &[Rec]| -> Vec<Vec<u8>> {
                    r.iter().flat_map(|r| &r.fields).flat_map(|f| &f.subs).map(|s| s.value.clone()).collect()
                };
                let (a, b) = (vals(&back), vals(&recs));
                let i = (0..b.len()).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
                return Err(format!("{format}: '{}' became {:?}", show(&b[i]), a.get(i).map(|v| show(v))));
            }
            c.count("characters converted", usable.len() as u64);
        }
        c.sig(&format!("characters from {lo:#x}"));
        Ok(())
    });
    ctx.require("values compared", 2_000);
    ctx.require("streams that cannot be represented", 50);
    ctx.require("characters converted", 5_000_000);
}

pub fn c28(ctx: &mut Ctx) {
    use sha2::{Digest, Sha256};
    ctx.rule(
        "A case runs pica hash with random header, --tsv, selection, inputs and destination, \
         reads the table with a strict CSV reader and compares every row with the PPN and the \
         SHA-256 of the record's bytes computed by the harness. A situation is the options, \
         destination, selection and number of records (equal, different, without PPN).",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let b = basics(c, &w, 12);
        let mut o = b.opts.clone();
        let recs = b.inp.recs();
        let tsv = c.r.chance(1, 3);
        if tsv {
            o.push(if c.r.bool() { "-t" } else { "--tsv" }.into());
        }
        let chosen = b.sel.select(&recs);
        let mut rows: Rows = chosen
            .iter()
            .map(|r| {
                let hex: String = Sha256::digest(r.encode()).iter().map(|b| format!("{b:02x}")).collect();
                vec![lossy(r.ppn().unwrap_or_default()).into_bytes(), hex.into_bytes()]
            })
            .collect();
        let mut head = vec![b"ppn".to_vec(), b"hash".to_vec()];
        if c.r.bool() {
            let (t, cells) = header(&mut c.r, 2);
            o.push(if c.r.bool() { format!("--header={t}") } else { format!("-H{t}") });
            if t.is_empty() {
                o.pop();
            } else {
                head = cells;
            }
        }
        let dest = TableDest::random(&mut c.r, &w, false, tsv);
        o.extend(dest.args.clone());
        let args = place(&mut c.r, &["hash"], o, b.inp.args.clone());
        let out = w.run_with(&args, &b.inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), b.inp.describe());
        let different: BTreeSet<&Vec<u8>> = rows.iter().map(|r| &r[1]).collect();
        c.sig(&format!(
            "{tsv}/{}/{}/{}/{}/{}", head.len(), dest.kind, b.sel.sig(), rows.len().min(8),
            rows.len() - different.len()
        ));
        c.count("different records", different.len() as u64);
        if head.len() != 2 && !rows.is_empty() {
            c.count("headers of the wrong width", 1);
            return out.failed().map_err(|e| format!("header of the wrong width: {e}; {}", info()));
        }
        rows.insert(0, head);
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_table(&got, &rows, if tsv { b'\t' } else { b',' }, Quotes::Necessary, info)?;
        c.count("digests compared", rows.len() as u64 - 1);
        c.sample(|| json!({"command": cmdline(&args), "records": rows.len() - 1}));
        Ok(())
    };
    ctx.run("hash", 1_700, 60_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("digests compared", 2_000);
}

pub fn c29(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica print with random selection, --translit, inputs and destination and \
         compares every output byte with the model; records with invalid UTF-8 must be \
         reported. A situation is the options, destination and kinds of values.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let mut ls = case_lines(c, 10);
        if c.r.chance(2, 3) {
            ls.retain(|l| Rec::decode(l).is_some_and(|r| r.is_utf8()));
        }
        let b = basics_of(c, &w, &mut ls);
        let mut o = b.opts.clone();
        let recs = b.inp.recs();
        let nf = nf_option(&mut c.r, &mut o);
        let chosen = b.sel.select(&recs);
        let dest = TableDest::random(&mut c.r, &w, false, false);
        o.extend(dest.args.clone());
        let args = place(&mut c.r, &["print"], o, b.inp.args.clone());
        let out = w.run_with(&args, &b.inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), b.inp.describe());
        let valid = chosen.iter().all(|r| r.is_utf8());
        c.sig(&format!("{}/{}/{}/{valid}/{}", nf.map_or("-", |n| n.name()), dest.kind, b.sel.sig(), chosen.len().min(6)));
        if !valid {
            c.count("invalid UTF-8 reported", 1);
            return out.failed().map_err(|e| format!("{e}; {}", info()));
        }
        let mut want = String::new();
        for rec in &chosen {
            for f in &rec.fields {
                want += f.tag_str();
                if let Some(o) = &f.occ {
                    want += &format!("/{}", lossy(o));
                }
                for s in &f.subs {
                    want += &format!(" ${} {}", s.code as char, normalize(nf, &lossy(&s.value)));
                }
                want.push('\n');
            }
            want.push('\n');
        }
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_output(&got, want.as_bytes(), info)?;
        c.count("records printed", chosen.len() as u64);
        c.count("bytes compared", want.len() as u64);
        c.sample(|| json!({"command": cmdline(&args), "records": chosen.len(), "bytes": want.len()}));
        Ok(())
    };
    ctx.run("print", 1_700, 60_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("records printed", 1_000);
    ctx.require("invalid UTF-8 reported", 20);
}
