//! C08 (queries) and C09 (formats).
use model::expr::*;
use model::fmt::Format as MFormat;
use model::generate::{self, Opts};
use model::mon::*;
use model::query::{QFrag, QOpts, Query as MQuery, Rows};
use model::rec::*;
use model::rng::Rng;
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde_json::json;

use crate::patterns::mopts;

fn rows_text(rows: &Rows) -> String {
    let mut s = format!("{} rows", rows.len());
    for r in rows.iter().take(12) {
        s += &format!("\n    {:?}", r.iter().map(|c| show(c)).collect::<Vec<_>>());
    }
    s
}

fn record(r: &mut Rng) -> Rec {
    let o = Opts {
        utf8: r.chance(3, 4),
        max_fields: *r.pick(&[2, 6, 12]),
        ..Default::default()
    };
    let mut rec = generate::record(r, &o);
    if r.chance(1, 300) {
        for _ in 0..300 {
            let f = r.pick(&rec.fields).clone();
            rec.fields.push(f);
        }
    }
    rec
}

fn qopts(r: &mut Rng) -> QOpts {
    QOpts {
        m: mopts(r),
        separator: r.pick(&["|", "|", ", ", "", "\u{1f}", "é", "||"]).to_string(),
        squash: r.chance(1, 3),
        merge: r.chance(1, 3),
    }
}

fn lib_opts(q: &QOpts) -> QueryOptions {
    let mut o = QueryOptions::new()
        .case_ignore(q.m.ignore_case)
        .strsim_threshold(q.m.threshold)
        .squash(q.squash)
        .merge(q.merge);
    if q.separator != "|" {
        o = o.separator(q.separator.clone());
    }
    o
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule(
        "A case evaluates one query of one to four fragments (paths with one to three code \
         groups and conditions, literals, formats), written in two random notations, with \
         random squash, merge, separator and matching options on records as reference and text \
         and compares the whole table with the reference evaluation. A situation is the kinds \
         of the fragments, squash, merge, columns and the number of rows.",
    );
    ctx.run("tables", 20_000, 1_500_000, |c| {
        let recs: Vec<Rec> = (0..2).map(|_| record(&mut c.r)).collect();
        let q = MQuery::random(&mut c.r, Some(&recs[0]));
        let o = qopts(&mut c.r);
        for round in 0..2 {
            let st = Style::random(&mut c.r);
            let text = q.text(&mut c.r, &st);
            let query = Query::new(&text).map_err(|e| format!("{text:?} is rejected: {e}"))?;
            for rec in &recs {
                let size = q.size(rec, &o);
                if size > 3000 {
                    c.count("tables too large", 1);
                    continue;
                }
                let want = q.eval(rec, &o);
                let enc = rec.encode();
                let ctx = || format!("query {text:?} options {o:?} record '{}'", show(&enc));
                let r = RecordRef::from_bytes(&enc).map_err(|e| e.to_string())?;
                let got: Rows = r
                    .query(&query, &lib_opts(&o))
                    .into_inner()
                    .into_iter()
                    .map(|row| row.into_iter().map(|c| c.to_vec()).collect())
                    .collect();
                same("table", &got, &want, rows_text, ctx)?;
                let cols = q.columns();
                if got.iter().any(|r| r.len() != cols) {
                    return Err(format!("a row does not have {cols} cells; {}", ctx()));
                }
                let byte = ByteRecord::from_bytes(&enc).map_err(|e| e.to_string())?;
                if let Ok(s) = StringRecord::try_from(byte) {
                    let got: Rows = s
                        .query(&query, &lib_opts(&o))
                        .into_inner()
                        .into_iter()
                        .map(|row| row.into_iter().map(|c| c.into_bytes()).collect())
                        .collect();
                    same("table of the text record", &got, &want, rows_text, ctx)?;
                    c.count("text records", 1);
                }
                c.count("rows compared", want.len() as u64);
                c.count("cells compared", (want.len() * cols) as u64);
                let kinds: String = q
                    .0
                    .iter()
                    .map(|f| match f {
                        QFrag::Path(p) => format!("p{}{}", p.codes.len(), if p.cond.is_some() { "c" } else { "" }),
                        QFrag::Lit(_) => "l".into(),
                        QFrag::Format(_) => "f".into(),
                    })
                    .collect();
                c.sig(&format!("{kinds}/{}/{}/{}", o.squash, o.merge, want.len().min(6)));
                if round == 0 {
                    c.sample(|| json!({"query": text, "options": format!("{o:?}"), "record": show(&enc), "rows": want.len()}));
                }
            }
        }
        Ok(())
    });
    ctx.require("rows compared", 10_000);
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule(
        "A case formats records with one format string (prefixes, suffixes, bounds, <*> and \
         <$> lists, groups, modifiers, conditions), written in two random notations, with \
         random options, as reference and text, and compares all results with the reference \
         evaluation. A situation is the set of constructs with the options and the number of \
         texts.",
    );
    ctx.run("formats", 25_000, 2_000_000, |c| {
        let recs: Vec<Rec> = (0..2).map(|_| record(&mut c.r)).collect();
        let f = MFormat::random(&mut c.r, Some(&recs[0]));
        let m = mopts(&mut c.r);
        let strip = c.r.chance(1, 3);
        let lo = FormatOptions::new()
            .strip_overread_char(strip)
            .case_ignore(m.ignore_case)
            .strsim_threshold(m.threshold);
        for round in 0..2 {
            let st = Style::random(&mut c.r);
            let text = f.text(&mut c.r, &st);
            let fmt = Format::new(&text).map_err(|e| format!("{text:?} is rejected: {e}"))?;
            for rec in &recs {
                let want = f.eval(rec, strip, &m);
                let enc = rec.encode();
                let ctx = || format!("format {text:?} options {m:?} strip {strip} record '{}'", show(&enc));
                let r = RecordRef::from_bytes(&enc).map_err(|e| e.to_string())?;
                let got: Vec<Vec<u8>> = r.format(&fmt, &lo).map(|v| v.to_vec()).collect();
                let lst = |v: &Vec<Vec<u8>>| format!("{:?}", v.iter().map(|v| show(v)).collect::<Vec<_>>());
                same("texts", &got, &want, lst, ctx)?;
                let byte = ByteRecord::from_bytes(&enc).map_err(|e| e.to_string())?;
                if let Ok(s) = StringRecord::try_from(byte) {
                    let got: Vec<Vec<u8>> = s.format(&fmt, &lo).map(|v| v.into_bytes()).collect();
                    same("texts of the text record", &got, &want, lst, ctx)?;
                    c.count("text records", 1);
                }
                c.count("texts compared", want.len() as u64);
                c.count("fields without text", (want.is_empty()) as u64);
                let mut k = vec![];
                f.frag.kinds(&mut k);
                k.sort();
                k.dedup();
                c.sig(&format!("{}/{strip}/{}/{}", k.concat(), f.cond.is_some(), want.len().min(4)));
                if round == 0 {
                    c.sample(|| json!({"format": text, "record": show(&enc), "texts": lst(&want)}));
                }
            }
        }
        Ok(())
    });
    ctx.require("texts compared", 10_000);
}
