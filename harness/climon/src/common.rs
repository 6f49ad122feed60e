//! What all commands have in common: the skipping of invalid lines and the
//! selection of records.

use model::generate::{self, Opts};
use model::query::Path as MPath;
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use serde_json::json;

use crate::cli::*;
use crate::cmds::*;
use crate::lists::{write_columns, write_list_as};
use crate::records::lines;

/// Does the message name the line with this number?
fn names_line(err: &str, n: usize) -> bool {
    let t = format!("line {n}");
    err.match_indices(&t).any(|(i, _)| !err[i + t.len()..].starts_with(|c: char| c.is_ascii_digit()))
}

/// How a configuration file gets into the command line.
fn config_args(r: &mut Rng, w: &Work, text: &str) -> Vec<String> {
    if r.bool() {
        let p = w.write("cfg.toml", text.as_bytes());
        vec![r.pick(&["-c", "--config"]).to_string(), p]
    } else {
        w.write("home/.config/pica/config.toml", text.as_bytes());
        vec![]
    }
}

fn no_config(w: &Work) {
    let _ = std::fs::remove_file(w.dir.join("home/.config/pica/config.toml"));
}

pub fn c27(ctx: &mut Ctx) {
    ctx.rule(
        "A case of 'commands' runs a random use of one of 15 commands on records and again on the same \
         records with lines that are no records anywhere between them, with --skip-invalid or \
         skip-invalid in the configuration: outputs and status must be the same; without it the \
         command must fail and name the first of the lines. A case of 'invalid' runs pica invalid \
         over lines of all kinds (valid, invalid, empty, unterminated, compressed inputs, standard \
         input) and compares the output with the lines that the grammar of the format rejects, and \
         its complement with pica concat --skip-invalid. A situation is the command with its output \
         and the number and place of invalid lines.",
    );
    ctx.run("commands", 1_500, 40_000, |c| {
        let w = Work::new(ctx, c);
        let name = READING[c.idx as usize % READING.len()];
        let o = Opts { utf8: true, max_fields: 4, ..Default::default() };
        let clean = if c.r.chance(1, 6) {
            lines(&mut c.r, 12)
        } else {
            stream(&mut c.r, 12, &o)
        };
        let mut spoiled = clean.clone();
        let n = c.r.range(1, 4);
        spoil(&mut c.r, &mut spoiled, n);
        let before = input_as(&mut c.r, &w, clean, "clean");
        let inp = input_as(&mut c.r, &w, spoiled, "in");
        let recs = before.recs();
        let mut sel = if SELECTING.contains(&name) && c.r.chance(1, 3) {
            Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: false })
        } else {
            Sel::all()
        };
        let mut cmd = Cmd::random(&mut c.r, &w, name, &recs, sel.mopts());
        let so = cmd.selection(&mut c.r, &w, &mut sel);
        let seed = c.r.u64();
        let t1 = Target::random(&mut Rng::new(seed), &w, &cmd, "a");
        let t2 = Target::random(&mut Rng::new(seed), &w, &cmd, "b");
        let t3 = Target::random(&mut Rng::new(seed), &w, &cmd, "c");
        let a1 = cmd.line(&mut c.r, &so, &t1, &before.args);
        let want = w.run_with(&a1, &before.setup())?;
        if want.code != 0 && want.code != 2 {
            return Err(format!("exit status {}: {}; {}", want.code, want.err, cmdline(&a1)));
        }
        let way = c.r.below(4);
        let mut so2 = so.clone();
        let mut pre = vec![];
        match way {
            0 => pre = config_args(&mut c.r, &w, "skip-invalid = true\n"),
            1 => {
                // the option counts more than the configuration
                pre = config_args(&mut c.r, &w, "skip-invalid = false\n");
                so2.push("-s".into());
            }
            2 => so2.push("--skip-invalid".into()),
            _ => so2.push("-s".into()),
        }
        let mut a2 = pre;
        a2.extend(cmd.line(&mut c.r, &so2, &t2, &inp.args));
        let got = w.run_with(&a2, &inp.setup())?;
        no_config(&w);
        let first = inp.lines.iter().position(|l| l.rec.is_none()).unwrap();
        let last = inp.lines.iter().rposition(|l| l.rec.is_none()).unwrap();
        c.sig(&format!(
            "{name}/{}/{}/{way}/{n}{}{}/{}",
            t1.kind,
            cmd.opts.len(),
            first == 0,
            last + 1 == inp.lines.len(),
            inp.kind
        ));
        let info = || format!("{}\n  on clean input: {}{}{}", cmdline(&a2), cmdline(&a1), cmd.note, inp.describe());
        if (want.code == 0) != (got.code == 0) {
            return Err(format!(
                "exit status {} ({}) but {} ({}) without the invalid lines; {}",
                got.code, got.err.trim(), want.code, want.err.trim(), info()
            ));
        }
        if want.code != 0 {
            c.count("commands that fail anyway", 1);
            return Ok(());
        }
        let x = t1.outputs(&w, &want).map_err(|e| format!("{e}; {}", info()))?;
        let g = t2.outputs(&w, &got).map_err(|e| format!("{e}; {}", info()))?;
        same_outputs(&g, &x, info)?;
        c.count("outputs compared", x.len() as u64);
        c.count("lines skipped", n as u64);
        // and without skipping
        let mut so3 = so.clone();
        so3.retain(|a| a != "-s" && a != "--skip-invalid");
        let mut a3 = if c.r.chance(1, 4) { config_args(&mut c.r, &w, "skip-invalid = false\n") } else { vec![] };
        a3.extend(cmd.line(&mut c.r, &so3, &t3, &inp.args));
        let out = w.run_with(&a3, &inp.setup())?;
        no_config(&w);
        let info = || format!("{}{}{}", cmdline(&a3), cmd.note, inp.describe());
        let l = &inp.lines[first];
        // slice may stop earlier
        let stops = name == "slice" && cmd.opts.iter().any(|o| o == "--length");
        if stops && out.code == 0 {
            c.count("stopped before the line", 1);
            return Ok(());
        }
        out.failed().map_err(|e| format!("without --skip-invalid: {e}; {}", info()))?;
        let source = &inp.names[l.file];
        if !names_line(&out.err, l.no) || !out.err.contains(&source[..]) {
            return Err(format!(
                "the message should name line {} of {source}: {}; {}",
                l.no, out.err.trim(), info()
            ));
        }
        c.count("failures naming the line", 1);
        c.sample(|| json!({"command": cmdline(&a2), "records": recs.len(), "invalid lines": n}));
        Ok(())
    });
    ctx.run("invalid", 500, 15_000, |c| {
        let w = Work::new(ctx, c);
        let mut ls = lines(&mut c.r, 20);
        let n = c.r.below(12);
        spoil(&mut c.r, &mut ls, n);
        if c.r.chance(1, 10) {
            // a long one
            let mut l = vec![*c.r.pick(b"x0\x1f\xff"); *c.r.pick(&[8191, 8192, 70_000])];
            l.push(b'\n');
            let at = c.r.below(ls.len() + 1);
            ls.insert(at, l);
        }
        if c.r.chance(1, 3)
            && let Some(l) = ls.last_mut()
        {
            // the last line has no end
            l.pop();
            if l.is_empty() {
                ls.pop();
            }
            c.count("unterminated inputs", 1);
        }
        let inp = input(&mut c.r, &w, ls);
        let want: Vec<u8> =
            inp.lines.iter().filter(|l| l.rec.is_none()).flat_map(|l| l.data.iter().copied()).collect();
        let file = c.r.chance(1, 3);
        let mut o = vec![];
        if file {
            if c.r.bool() {
                w.write("out.dat", &vec![b'y'; 3000]);
            }
            o.extend([c.r.pick(&["-o", "--output"]).to_string(), w.path("out.dat")]);
        }
        let mut args = vec!["invalid".to_string()];
        args.extend(o);
        args.extend(inp.args.clone());
        // the configuration has no influence
        let mut a = if c.r.chance(1, 5) { config_args(&mut c.r, &w, "skip-invalid = true\n") } else { vec![] };
        a.extend(args);
        let out = w.run_with(&a, &inp.setup())?;
        no_config(&w);
        let info = || format!("{}{}", cmdline(&a), inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = if file { w.read("out.dat")? } else { out.out.clone() };
        same_output(&got, &want, info)?;
        let bad = inp.lines.iter().filter(|l| l.rec.is_none()).count();
        c.count("invalid lines reported", bad as u64);
        let mut args = words(&["concat", "-s"]);
        args.extend(inp.args.clone());
        let out = w.run_with(&args, &inp.setup())?;
        let valid: Vec<u8> =
            inp.lines.iter().filter(|l| l.rec.is_some()).flat_map(|l| l.data.iter().copied()).collect();
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        same_output(&out.out, &valid, || format!("{}{}", cmdline(&args), inp.describe()))?;
        c.count("valid lines kept", (inp.lines.len() - bad) as u64);
        c.sig(&format!("invalid/{file}/{}/{}/{}", inp.kind, bad.min(8), (inp.lines.len() - bad).min(8)));
        c.sample(|| json!({"command": cmdline(&a), "lines": inp.lines.len(), "invalid": bad}));
        Ok(())
    });
    ctx.require("lines skipped", 1_000);
    ctx.require("failures naming the line", 500);
    ctx.require("invalid lines reported", 1_000);
    ctx.require("unterminated inputs", 50);
}

pub fn c31(ctx: &mut Ctx) {
    ctx.rule(
        "A case of 'selections' runs a random use of one of 13 commands with a random selection \
         (--where with --and, --or, --not, --ignore-case, --strsim-threshold, allow and deny lists in \
         all formats with columns and sources, --limit) and the same use without a selection on the \
         records that the model of the selection chooses; status and outputs must be the same. A case \
         of 'lists' runs a command with lists of up to 20000 odd values (numbers with leading zeros, \
         quotes, delimiters, blanks, null) in each of the list formats against records with known \
         PPNs. A situation is the command with the parts of its selection, or the list formats with \
         their sizes.",
    );
    ctx.run("selections", 2_000, 60_000, |c| {
        if c.r.chance(1, 3) {
            generate::use_kin(&mut c.r);
        }
        let w = Work::new(ctx, c);
        let name = SELECTING[c.idx as usize % SELECTING.len()];
        let o = Opts { utf8: c.r.chance(9, 10), max_fields: 5, ..Default::default() };
        let mut ls = stream(&mut c.r, 14, &o);
        let bad = if c.r.chance(1, 5) { c.r.range(1, 2) } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let inp = input_as(&mut c.r, &w, ls, "in");
        let recs = inp.recs();
        let mut sel = Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true });
        sel.skip = bad > 0;
        let mut cmd = Cmd::random(&mut c.r, &w, name, &recs, sel.mopts());
        if name == "slice" && bad > 0 {
            // positions of invalid lines
            cmd.opts.clear();
        }
        if name == "explode" {
            cmd.opts.clear();
        }
        let so = cmd.selection(&mut c.r, &w, &mut sel);
        let seed = c.r.u64();
        let t1 = Target::random(&mut Rng::new(seed), &w, &cmd, "a");
        let t2 = Target::random(&mut Rng::new(seed), &w, &cmd, "b");
        let a1 = cmd.line(&mut c.r, &so, &t1, &inp.args);
        let out = w.run_with(&a1, &inp.setup())?;
        if name == "explode" {
            // the selection applies to the parts
            let skip = if sel.skip { words(&["-s"]) } else { vec![] };
            let a2 = cmd.line(&mut c.r, &skip, &Target::stdout(), &inp.args);
            let all = w.run_with(&a2, &inp.setup())?;
            let info = || format!("{}\n  all parts: {}{}", cmdline(&a1), cmdline(&a2), inp.describe());
            let parts: Vec<Rec> =
                Rec::lines(all.ok()?).into_iter().filter_map(Rec::decode).collect();
            let refs: Vec<&Rec> = parts.iter().collect();
            let chosen = sel.select(&refs);
            out.ok().map_err(|e| format!("{e}; {}", info()))?;
            let g = t1.outputs(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
            let got = g.values().find(|v| !v.is_empty()).cloned().unwrap_or_default();
            same_output(&got, &concat(&chosen), info)?;
            c.count("records offered", parts.len() as u64);
            c.count("records selected", chosen.len() as u64);
            c.count("runs of explode", 1);
            c.sig(&format!("{name}/{}/{}/{}", sel.sig(), t1.kind, chosen.len().min(4)));
            return Ok(());
        }
        // the reference
        let mut chosen = sel.select(&recs);
        if name == "partition" && sel.limit > 0 {
            // the limit is for records that have a value
            let s = Sel { limit: 0, ..sel.clone() };
            chosen = s.select(&recs);
        }
        let small: Vec<Vec<u8>> = chosen.iter().map(|r| r.encode()).collect();
        let inp2 = input_as(&mut c.r, &w, small, "chosen");
        let mut rest = Sel { ignore_case: sel.ignore_case, threshold: sel.threshold, ..Sel::all() };
        if name == "partition" {
            rest.limit = sel.limit;
        }
        let so2 = cmd.selection(&mut c.r, &w, &mut rest);
        let a2 = cmd.line(&mut c.r, &so2, &t2, &inp2.args);
        let want = w.run_with(&a2, &inp2.setup())?;
        c.sig(&format!("{name}/{}/{}/{}", sel.sig(), t1.kind, chosen.len().min(4)));
        let info = || {
            format!(
                "{}\n  on the selected records: {}{}{}\n  selected: {}",
                cmdline(&a1),
                cmdline(&a2),
                cmd.note,
                inp.describe(),
                chosen.iter().map(|r| format!("\n    {}", show(&r.encode()))).collect::<String>()
            )
        };
        if (out.code, want.code) == (2, 2) {
            c.count("commands that fail on the selected records", 1);
            return Ok(());
        }
        if out.code != 0 || want.code != 0 {
            return Err(format!(
                "exit status {} ({}) but {} ({}) on the selected records; {}",
                out.code, out.err.trim(), want.code, want.err.trim(), info()
            ));
        }
        let x = t2.outputs(&w, &want).map_err(|e| format!("{e}; {}", info()))?;
        let g = t1.outputs(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_outputs(&g, &x, info)?;
        c.count("records offered", recs.len() as u64);
        c.count("records selected", chosen.len() as u64);
        c.count(&format!("runs of {name}"), 1);
        c.sample(|| json!({"command": cmdline(&a1), "records": recs.len(), "selected": chosen.len()}));
        Ok(())
    });
    ctx.run("lists", 250, 6_000, |c| {
        let w = Work::new(ctx, c);
        let odd = [
            "0012", "12", "012345678", "1e5", "NaN", "null", "NULL", "true", "inf", "2024-01-01", " x", "x ",
            "a b", "a,b", "a\tb", "\"q\"", "'", "#a", "Ä", "日本", "-", "1.0", "1", "0x1F", "\\N", "a\"b",
            "04065105X", "4065105X",
        ];
        let n = match c.r.below(8) {
            0 => 0,
            1 => 1,
            2 => *c.r.pick(&[512, 1000, 5000, 20_000]),
            _ => c.r.range(2, 60),
        };
        let value = |r: &mut Rng| match r.below(4) {
            0 => r.pick(&odd).to_string(),
            1 => format!("{:09}", r.below(2 * n + 10)),
            2 => format!("{}X", r.below(2 * n + 10)),
            _ => format!("{}{}", r.pick(&odd), r.below(10)),
        };
        let values: Vec<String> = (0..n).map(|_| value(&mut c.r)).collect();
        let formats: &[&str] = if !values.is_empty() {
            &["csv", "csv.gz", "tsv", "tsv.gz", "txt", "txt.gz", "ipc", "other"]
        } else {
            &["csv", "csv.gz", "tsv", "tsv.gz", "ipc", "other"]
        };
        let f = formats[c.idx as usize % formats.len()];
        let file = write_list_as(&mut c.r, &w, "list", &values, None, f);
        let m = c.r.range(1, 40);
        let recs: Vec<Rec> = (0..m)
            .map(|i| {
                let v = match c.r.below(3) {
                    0 if !values.is_empty() => c.r.pick(&values).clone(),
                    // the ends of the list
                    1 if !values.is_empty() => values[*c.r.pick(&[0, values.len() - 1])].clone(),
                    _ => value(&mut c.r),
                };
                let sub = |code, v: String| Sub { code, value: v.into_bytes() };
                Rec {
                    fields: vec![
                        Fld { tag: *b"003@", occ: None, subs: vec![sub(b'0', v)] },
                        Fld { tag: *b"012A", occ: None, subs: vec![sub(b'a', i.to_string())] },
                    ],
                }
            })
            .collect();
        let data: Vec<u8> = recs.iter().flat_map(|r| r.encode()).collect();
        let set: std::collections::HashSet<&[u8]> = values.iter().map(|v| v.as_bytes()).collect();
        let deny = c.r.bool();
        let numbers: Vec<String> = recs
            .iter()
            .enumerate()
            .filter(|(_, r)| set.contains(&r.fields[0].subs[0].value[..]) != deny)
            .map(|(i, _)| i.to_string())
            .collect();
        let inf = w.write("in.dat", &data);
        let args = words(&["select", if deny { "-D" } else { "-A" }, &file, "012A.a", &inf]);
        let out = w.run(&args, b"")?;
        let info = || format!("{} ({} values)\n{}", cmdline(&args), values.len(), show(&data));
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let want: String = numbers.iter().map(|n| format!("{n}\n")).collect();
        same_output(&out.out, want.as_bytes(), info)?;
        c.count("list values", values.len() as u64);
        c.count(&format!("lists in {f}"), 1);
        c.sig(&format!("lists/{f}/{deny}/{}/{}", values.len().min(20), numbers.len().min(10)));
        Ok(())
    });
    ctx.run("columns", 300, 6_000, |c| {
        let w = Work::new(ctx, c);
        let mut names: Vec<&str> = vec!["ppn", "idn", "other", "a b"];
        c.r.shuffle(&mut names);
        names.truncate(c.r.range(1, 4));
        let ids: Vec<String> = (0..12).map(|i| format!("{:03}", i * 37 % 50)).collect();
        let n = c.r.range(1, 8);
        let cols: Vec<(&str, Vec<String>)> = names
            .iter()
            .map(|n_| {
                // some cells are empty
                let gaps = if names.len() > 1 && c.r.bool() { 3 } else { 0 };
                let cell = |r: &mut Rng| if r.chance(gaps, 10) { String::new() } else { r.pick(&ids).clone() };
                (*n_, (0..n).map(|_| cell(&mut c.r)).collect())
            })
            .collect();
        let gaps = cols.iter().any(|c| c.1.iter().any(String::is_empty));
        let wish = c.r.bool().then(|| *c.r.pick(&["ppn", "idn", "other", "a b", "PPN"]));
        let numbers = c.r.bool();
        let f = *c.r.pick(&["csv", "tsv.gz", "ipc"]);
        let file = write_columns(&w, &format!("list.{f}"), &cols, numbers && f == "ipc");
        let find = |n: &str| cols.iter().find(|c| c.0 == n).map(|c| &c.1);
        let used = match wish {
            Some(n) => find(n),
            None => find("ppn").or(find("idn")),
        };
        let data: Vec<u8> = ids.iter().flat_map(|i| format!("003@ \x1f0{i}\x1e\n").into_bytes()).collect();
        let inf = w.write("in.dat", &data);
        let deny = c.r.bool();
        let mut args = words(&["select", if deny { "--deny-list" } else { "--allow-list" }, &file]);
        if let Some(n) = wish {
            args.extend(words(&["--filter-set-column", n]));
        }
        args.extend(words(&["003@.0", &inf]));
        let out = w.run(&args, b"")?;
        let info = || format!("{} with {cols:?}", cmdline(&args));
        c.sig(&format!("columns/{names:?}/{wish:?}/{f}/{deny}"));
        c.count("column choices", 1);
        let Some(used) = used else {
            c.count("missing columns", 1);
            return out.failed().map_err(|e| format!("missing column: {e}; {}", info()));
        };
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let as_listed = |i: &String| if numbers && f == "ipc" { i.parse::<u32>().unwrap().to_string() } else { i.clone() };
        let used: Vec<String> = used.iter().filter(|i| !i.is_empty()).map(as_listed).collect();
        if gaps {
            c.count("lists with empty cells", 1);
        }
        let want: String = ids.iter().filter(|i| used.contains(i) != deny).map(|i| format!("{i}\n")).collect();
        same_output(&out.out, want.as_bytes(), info)
    });
    ctx.run("sources", 300, 6_000, |c| {
        let w = Work::new(ctx, c);
        // records with many values
        let m = c.r.range(1, 12);
        let recs: Vec<Rec> = (0..m)
            .map(|i| {
                let mut fields = vec![Fld {
                    tag: *b"003@",
                    occ: None,
                    subs: vec![Sub { code: b'0', value: i.to_string().into_bytes() }],
                }];
                let n = match c.r.below(4) {
                    0 => c.r.below(3),
                    1 => generate::edge(&mut c.r, 2, 7),
                    _ => c.r.range(3, 40),
                };
                let per = c.r.range(1, 5);
                let many = if c.r.bool() { 1 } else { n };
                for k in 0..n {
                    let letter = *c.r.pick(&["", "", "x", "X", "Straße", "STRASSE"]);
                    let s = Sub { code: b'a', value: format!("{letter}{i}-{k}").into_bytes() };
                    let occ = c.r.chance(1, 8).then(|| b"01".to_vec());
                    match fields.last_mut() {
                        Some(f) if &f.tag != b"003@" && f.subs.len() < per.max(many) => f.subs.push(s),
                        _ => fields.push(Fld { tag: *b"029A", occ, subs: vec![s] }),
                    }
                }
                Rec { fields }
            })
            .collect();
        let (path, text) = if c.r.chance(1, 3) {
            let p = MPath {
                tag: model::expr::TagPat::lit("029A"),
                occ: model::expr::OccPat::Any,
                codes: vec![model::expr::Codes::One(b'a')],
                cond: None,
            };
            (p, "029A/*.a".to_string())
        } else {
            // (one with a condition, more often)
            let x = c.r.pick(&recs).clone();
            let want = c.r.bool();
            loop {
                let p = path_text(&mut c.r, Some(&x), false);
                if !want || p.0.cond.is_some() {
                    break p;
                }
            }
        };
        // some of the values of some of the records
        let mut s = Sel { source: Some((path.clone(), text.clone())), short: c.r.bool(), ..Sel::all() };
        // options of the filter do not apply to the source
        s.ignore_case = c.r.bool();
        s.threshold = c.r.bool().then(|| *c.r.pick(&[0, 1, 50, 99]));
        for _ in 0..c.r.range(1, 2) {
            let mut values = vec![];
            for r in &recs {
                let mut all = path.values(r, &Default::default());
                if all.is_empty() {
                    // with other options there may be some
                    all = path.values(r, &s.mopts());
                }
                if all.is_empty() || c.r.bool() {
                    continue;
                }
                let k = match c.r.below(3) {
                    0 => all.len() - 1,
                    1 => 0,
                    _ => c.r.below(all.len()),
                };
                values.push(String::from_utf8(all[k].clone()).unwrap());
            }
            values.push("x".into());
            values.retain(|v| !v.is_empty());
            let l = List { values, file: String::new() };
            if c.r.bool() { s.allow.push(l) } else { s.deny.push(l) }
        }
        let inp = input_as(&mut c.r, &w, recs.iter().map(Rec::encode).collect(), "in");
        let so = s.args(&mut c.r, &w);
        let mut args = words(&["select", "003@.0"]);
        args.extend(so);
        args.extend(inp.args.clone());
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}\n  allowed: {:?}\n  denied: {:?}{}", cmdline(&args), s.allow, s.deny, inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let refs: Vec<&Rec> = recs.iter().collect();
        let chosen = s.select(&refs);
        let want: String =
            chosen.iter().map(|r| String::from_utf8_lossy(&r.fields[0].subs[0].value).into_owned() + "\n").collect();
        same_output(&out.out, want.as_bytes(), info)?;
        c.count("records with sources", m as u64);
        c.sig(&format!("sources/{}/{}/{}/{}", s.allow.len(), s.deny.len(), m, chosen.len()));
        Ok(())
    });
    ctx.require("missing columns", 20);
    ctx.require("lists with empty cells", 20);
    ctx.require("records with sources", 500);
    ctx.require("records selected", 1_500);
    ctx.require("list values", 10_000);
}
