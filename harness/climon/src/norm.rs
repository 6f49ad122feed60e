//! Unicode normalization and the configuration.
use std::fs;
use std::os::unix::fs::PermissionsExt;

use model::expr::{Style, quote};
use model::generate::{self, Opts};
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use model::text::{NFS, Nf, normalize};
use serde_json::json;

use crate::checks::toml_str;
use crate::cli::*;
use crate::cmds::*;

/// Words that look different in the forms.
const WORDS: &[&str] = &[
    "Müller", "Mu\u{308}ller", "Å", "A\u{30a}", "\u{212b}", "ﬁn", "fin", "①", "1", "Ω", "\u{2126}", "각",
    "\u{1100}\u{1161}\u{11a8}", "e\u{323}\u{302}", "e\u{302}\u{323}", "ệ", "ẹ\u{302}", "ê\u{323}", "ǆ", "dž",
    "ｱ", "ア", "x²", "x2", "Ａ", "A", "\u{1e9b}\u{323}", "ẛ\u{323}", "ṩ", "\u{73}\u{323}\u{307}", "s\u{307}\u{323}",
    "\u{344}", "\u{308}\u{301}", "\u{fb1d}", "日", "\u{2f00}", "\u{4e00}", "abc", "", "é", "e\u{301}", "´",
    "\u{f900}", "\u{8c48}", "½", "1⁄2", "…", "...", "\u{a0}", " ", "K", "\u{212a}",
];

fn word(r: &mut Rng) -> String {
    let w = r.pick(WORDS).to_string();
    let w = if r.chance(1, 4) { format!("{w}{}", r.pick(WORDS)) } else { w };
    if r.chance(1, 3) {
        r.pick(&NFS).apply(&w)
    } else {
        w
    }
}

fn literal(r: &mut Rng, s: &str) -> String {
    quote(r, &Style::plain(), s)
}

/// A test of 012A $a with a literal.
#[derive(Clone)]
struct Test {
    op: &'static str,
    words: Vec<String>,
}

impl Test {
    fn random(r: &mut Rng, vocab: &[String]) -> Test {
        let op = *r.pick(&["==", "==", "!=", "=^", "=$", "=?", "in", "not in", "=~", "=~ list"]);
        let n = if op.contains("in") || op.contains("list") { r.range(1, 3) } else { 1 };
        let words = (0..n)
            .map(|_| {
                let mut w = r.pick(vocab).clone();
                // another form of the same word
                if r.bool() {
                    w = r.pick(&NFS).apply(&w);
                }
                w
            })
            .collect::<Vec<_>>();
        // becomes three dots, which have a meaning in regular expressions
        let dots = words.iter().any(|w: &String| w.contains(['…', '.']));
        let op = match op {
            "=~" if dots => "==",
            "=~ list" if dots => "in",
            op => op,
        };
        Test { op, words }
    }

    fn text(&self, r: &mut Rng) -> String {
        let lits: Vec<String> = self.words.iter().map(|w| literal(r, w)).collect();
        match self.op {
            "in" | "not in" => format!("012A.a {} [{}]", self.op, lits.join(", ")),
            "=~ list" => {
                let l: Vec<String> =
                    self.words.iter().map(|w| quote(r, &Style::plain(), &format!("^{w}"))).collect();
                format!("012A.a =~ [{}]", l.join(", "))
            }
            "=~" => {
                let w = format!("^{}$", self.words[0].replace('.', "\\."));
                format!("012A.a =~ {}", quote(r, &Style::plain(), &w))
            }
            op => format!("012A.a {op} {}", lits[0]),
        }
    }

    fn holds(&self, nf: Option<Nf>, v: &str) -> bool {
        let ws: Vec<String> = self.words.iter().map(|w| normalize(nf, w)).collect();
        match self.op {
            "==" | "=~" => v == ws[0],
            "!=" => v != ws[0],
            "=^" => v.starts_with(&ws[0]),
            "=$" => v.ends_with(&ws[0]),
            "=?" => v.contains(&ws[0]),
            "=~ list" => ws.iter().any(|w| v.starts_with(&w[..])),
            "in" => ws.iter().any(|w| v == w),
            _ => ws.iter().all(|w| v != w),
        }
    }
}

fn record(i: usize, v: &str) -> Rec {
    let sub = |code, v: &[u8]| Sub { code, value: v.to_vec() };
    Rec {
        fields: vec![
            Fld { tag: *b"003@", occ: None, subs: vec![sub(b'0', i.to_string().as_bytes())] },
            Fld { tag: *b"012A", occ: None, subs: vec![sub(b'a', v.as_bytes())] },
        ],
    }
}

/// Sets the form in the configuration; returns the arguments.
fn config(r: &mut Rng, w: &Work, nf: Option<Nf>) -> Vec<String> {
    let mut text = "skip-invalid = false\n".to_string();
    if let Some(nf) = nf {
        text += &format!("normalization = \"{}\"\n", nf.name());
    } else if r.bool() {
        return vec![];
    }
    let home = "home/.config/pica/config.toml";
    match r.below(3) {
        0 => {
            w.write(home, text.as_bytes());
            vec![]
        }
        1 => {
            // not the one that counts
            w.write(home, format!("skip-invalid = true\nnormalization = \"{}\"\n", r.pick(&NFS).name()).as_bytes());
            vec!["-c".into(), w.write("cfg.toml", text.as_bytes())]
        }
        _ => vec![r.pick(&["-c", "--config"]).to_string(), w.write("cfg.toml", text.as_bytes())],
    }
}

pub fn c30(ctx: &mut Ctx) {
    ctx.rule(
        "A case of 'expressions' builds records from words whose normal forms differ, tests them with \
         expressions written in other forms, with no or one of the four forms configured (in the default \
         file, in one given with -c, or both), in filter (argument, file, --and, --or, --not), --where of \
         other commands, select and frequency queries and rule sets, and compares with the model, which \
         normalises the literals only. 'commands' compares random uses of the commands with expressions, \
         queries and rule sets under a configured form with uses of already normalised ones. 'output' runs select, print and frequency with --translit. \
         'files' walks through random histories of the config command with good and bad arguments, \
         edits and removals of the file and compares every answer with a model of the file; 'broken' \
         gives commands unusable configurations. A situation is the place of the expression with its \
         operator, forms and matches, or the history of the file.",
    );
    ctx.run("expressions", 1_200, 40_000, |c| {
        let w = Work::new(ctx, c);
        let n = c.r.range(2, 12);
        let vocab: Vec<String> = (0..c.r.range(1, 3)).map(|_| word(&mut c.r)).collect();
        let values: Vec<String> = (0..n)
            .map(|_| {
                let v = if c.r.chance(4, 5) { c.r.pick(&vocab).clone() } else { word(&mut c.r) };
                if c.r.chance(2, 3) { c.r.pick(&NFS).apply(&v) } else { v }
            })
            .collect();
        let recs: Vec<Rec> = values.iter().enumerate().map(|(i, v)| record(i, v)).collect();
        let data = recs.iter().flat_map(Rec::encode).collect::<Vec<u8>>();
        let f = w.write("in.dat", &data);
        let nf = c.r.chance(4, 5).then(|| *c.r.pick(&NFS));
        let mut args = config(&mut c.r, &w, nf);
        let t = Test::random(&mut c.r, &vocab);
        let text = t.text(&mut c.r);
        let t2 = Test::random(&mut c.r, &vocab);
        let text2 = t2.text(&mut c.r);
        if !passable(&text) || !passable(&text2) {
            return Ok(());
        }
        let place = *c.r.pick(&[
            "filter", "filter -F", "filter --and", "filter --or", "filter --not", "filter -v", "where",
            "where --and", "where --or", "where --not", "select", "frequency", "literal", "check", "commands",
        ]);
        let ids = |keep: &dyn Fn(&str) -> bool| -> Vec<usize> {
            (0..n).filter(|i| keep(&values[*i])).collect()
        };
        let h = |v: &str| t.holds(nf, v);
        let h2 = |v: &str| t2.holds(nf, v);
        let lines = |ids: &[usize]| -> Vec<u8> { ids.iter().flat_map(|i| recs[*i].encode()).collect() };
        let rows = |ids: &[usize]| -> Vec<u8> { ids.iter().flat_map(|i| format!("{i}\n").into_bytes()).collect() };
        let want: Vec<u8>;
        match place {
            "filter" => {
                args.extend(words(&["filter", &text, &f]));
                want = lines(&ids(&h));
            }
            "filter -v" => {
                args.extend(words(&["filter", "-v", &text, &f]));
                want = lines(&ids(&|v| !h(v)));
            }
            "filter -F" => {
                let e = w.write("expr.txt", format!("{text}\n").as_bytes());
                args.extend(words(&["filter", "-F", &e, &f]));
                want = lines(&ids(&h));
            }
            "filter --and" | "where --and" => want = lines(&ids(&|v| h(v) && h2(v))),
            "filter --or" | "where --or" => want = lines(&ids(&|v| h(v) || h2(v))),
            "filter --not" | "where --not" => want = lines(&ids(&|v| h(v) && !h2(v))),
            "where" => {
                args.extend(words(&["slice", "--where", &text, &f]));
                want = lines(&ids(&h));
            }
            "select" | "frequency" => {
                // a condition on the field
                let cond = text.strip_prefix("012A.").unwrap();
                let q = format!("012A{{ a | {cond} }}");
                args.extend(words(&[place, &q, &f]));
                let hits: Vec<Vec<u8>> = ids(&h)
                    .iter()
                    .map(|i| values[*i].clone().into_bytes())
                    .filter(|v| !v.is_empty())
                    .collect();
                if place == "select" {
                    let rows: Vec<Vec<Vec<u8>>> = hits.into_iter().map(|v| vec![v]).collect();
                    want = crate::tables::csv_text(&rows, b',', crate::tables::Quotes::Necessary);
                } else {
                    let mut table: std::collections::BTreeMap<Vec<u8>, usize> = Default::default();
                    for v in hits {
                        *table.entry(v).or_default() += 1;
                    }
                    let mut t: Vec<_> = table.into_iter().collect();
                    t.sort_by_key(|e| usize::MAX - e.1);
                    let rows: Vec<Vec<Vec<u8>>> =
                        t.into_iter().map(|(v, n)| vec![v, n.to_string().into_bytes()]).collect();
                    want = crate::tables::csv_text(&rows, b',', crate::tables::Quotes::Necessary);
                }
            }
            "literal" => {
                let l = word(&mut c.r);
                let lit = literal(&mut c.r, &l);
                if !passable(&lit) {
                    return Ok(());
                }
                args.extend(words(&["select", &format!("003@.0, {lit}"), &f]));
                let l = normalize(nf, &l);
                let rows: Vec<Vec<Vec<u8>>> =
                    (0..n).map(|i| vec![i.to_string().into(), l.clone().into()]).collect();
                want = crate::tables::csv_text(&rows, b',', crate::tables::Quotes::Necessary);
            }
            "check" => {
                let invert = c.r.bool();
                let rules = format!(
                    "[rule.A]\ncheck = \"filter\"\nfilter = {}\ninvert-match = {invert}\n",
                    toml_str(&text)
                );
                let rf = w.write("rules.toml", rules.as_bytes());
                args.extend(words(&["check", "-R", &rf, &f]));
                // reported are the records for which it does (not) hold
                let hits = ids(&|v| h(v) != invert);
                let rows: Vec<Vec<Vec<u8>>> =
                    hits.iter().map(|i| vec![i.to_string().into(), b"A".to_vec(), b"error".to_vec(), vec![]]).collect();
                let mut all = vec![];
                if !rows.is_empty() {
                    all.push(["ppn", "rule", "level", "message"].iter().map(|s| s.as_bytes().to_vec()).collect());
                }
                all.extend(rows);
                want = crate::tables::csv_text(&all, b',', crate::tables::Quotes::Necessary);
            }
            _ => {
                // another command
                let (cmd, w_): (&[&str], Vec<u8>) = match c.r.below(4) {
                    0 => (&["count", "--records"], format!("{}\n", ids(&h).len()).into_bytes()),
                    1 => (&["select", "003@.0"], rows(&ids(&h))),
                    2 => (&["sample", "1000"], lines(&ids(&h))),
                    _ => (&["explode", "main"], lines(&ids(&h))),
                };
                args.extend(words(cmd));
                args.extend(words(&[&f, "--where", &text]));
                want = w_;
            }
        }
        if let Some((a, b)) = place.split_once(" --") {
            let o = format!("--{b}");
            if a == "filter" {
                args.extend(words(&["filter", &text, &o, &text2, &f]));
            } else {
                args.extend(words(&["slice", "--where", &text, &o, &text2, &f]));
            }
        }
        let out = w.run(&args, b"")?;
        let info = || {
            format!(
                "normalization {}: {}\n  escaped: {}\n  values: {}",
                nf.map_or("none", Nf::name),
                cmdline(&args),
                text.escape_unicode(),
                values.iter().map(|v| format!("{}", v.escape_unicode())).collect::<Vec<_>>().join(" | ")
            )
        };
        let matches = ids(&h).len();
        c.sig(&format!("{place}/{}/{}/{}/{}", t.op, nf.map_or("none", Nf::name), matches.min(3), n - matches > 0));
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let order = |d: &[u8]| {
            let mut l: Vec<Vec<u8>> = d.split_inclusive(|b| *b == b'\n').map(<[u8]>::to_vec).collect();
            l.sort();
            l.concat()
        };
        // samples come in any order
        same_output(&order(&out.out), &order(&want), info)?;
        c.count("values compared", n as u64);
        c.count("values selected", matches as u64);
        let changed = t.words.iter().any(|w| normalize(nf, w) != *w);
        if changed {
            c.count("expressions changed by the normalization", 1);
        }
        c.sample(|| json!({"command": cmdline(&args), "normalization": nf.map(Nf::name), "values": n, "selected": matches}));
        Ok(())
    });
    ctx.run("commands", 900, 30_000, |c| {
        if c.r.chance(3, 4) {
            c.r.kin = generate::KIN_FORMS;
        }
        let w = Work::new(ctx, c);
        let name = SELECTING[c.idx as usize % SELECTING.len()];
        let o = Opts { utf8: true, max_fields: 4, ..Default::default() };
        let ls = stream(&mut c.r, 12, &o);
        let inp = input(&mut c.r, &w, ls);
        let recs = inp.recs();
        let nf = c.r.chance(9, 10).then(|| *c.r.pick(&NFS));
        let mut sel = Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true });
        let mut cmd = Cmd::random(&mut c.r, &w, name, &recs, sel.mopts());
        let mut sel2 = Sel { ..sel.clone() };
        let mut cmd2 = cmd.clone();
        let n = |t: &str| normalize(nf, t);
        for l in [&mut sel2.and, &mut sel2.or, &mut sel2.not] {
            l.iter_mut().for_each(|x| x.1 = n(&x.1));
        }
        sel2.cond = sel2.cond.map(|(c, t)| (c, n(&t)));
        if matches!(name, "select" | "frequency") {
            cmd2.pos = cmd2.pos.iter().map(|p| n(p)).collect();
        }
        let mut changed = cmd2.pos != cmd.pos
            || sel.cond.as_ref().map(|x| &x.1) != sel2.cond.as_ref().map(|x| &x.1)
            || [(&sel.and, &sel2.and), (&sel.or, &sel2.or), (&sel.not, &sel2.not)]
                .iter()
                .any(|(a, b)| a.iter().zip(b.iter()).any(|(a, b)| a.1 != b.1));
        if name == "check" {
            let rules = w.path("rules.toml");
            let text = String::from_utf8(w.read("rules.toml")?).unwrap();
            let p = w.write("normal.toml", n(&text).as_bytes());
            changed |= n(&text) != text;
            cmd2.opts.iter_mut().filter(|o| **o == rules).for_each(|o| *o = p.clone());
        }
        let seed = c.r.u64();
        let so = cmd.selection(&mut Rng::new(seed), &w, &mut sel);
        let so2 = cmd2.selection(&mut Rng::new(seed), &w, &mut sel2);
        let t1 = Target::random(&mut Rng::new(seed), &w, &cmd, "a");
        let t2 = Target::random(&mut Rng::new(seed), &w, &cmd2, "b");
        let mut a1 = config(&mut c.r, &w, nf);
        a1.extend(cmd.line(&mut Rng::new(seed), &so, &t1, &inp.args));
        let one = w.run_with(&a1, &inp.setup())?;
        let home = "home/.config/pica/config.toml";
        let _ = fs::remove_file(w.dir.join(home));
        let a2 = cmd2.line(&mut Rng::new(seed), &so2, &t2, &inp.args);
        if a2.iter().any(|a| !passable(a)) {
            return Ok(());
        }
        let two = w.run_with(&a2, &inp.setup())?;
        let info = || {
            format!(
                "normalization {}: {}\n  and with normalized expressions: {}{}{}",
                nf.map_or("none", Nf::name), cmdline(&a1), cmdline(&a2), cmd.note, inp.describe()
            )
        };
        c.sig(&format!("commands/{name}/{}/{changed}/{}", nf.map_or("none", Nf::name), sel.sig()));
        if changed {
            c.count("commands with changed expressions", 1);
            c.count(&format!("{name} with changed expressions"), 1);
        }
        if (one.code, two.code) == (2, 2) {
            c.count("commands that fail with both", 1);
            return Ok(());
        }
        if one.code != 0 || two.code != 0 {
            return Err(format!(
                "exit status {} ({}) but {} ({}) with normalized expressions; {}",
                one.code, one.err.trim(), two.code, two.err.trim(), info()
            ));
        }
        let g = t1.outputs(&w, &one).map_err(|e| format!("{e}; {}", info()))?;
        let x = t2.outputs(&w, &two).map_err(|e| format!("{e}; {}", info()))?;
        same_outputs(&g, &x, info)
    });
    ctx.run("output", 300, 8_000, |c| {
        let w = Work::new(ctx, c);
        let n = c.r.range(1, 12);
        let mut values: Vec<String> = (0..n).map(|_| word(&mut c.r)).collect();
        // a second column
        let wide = c.r.bool();
        if wide {
            values.retain(|v| !v.is_empty());
        }
        let n = values.len();
        let others: Vec<String> = (0..n).map(|_| word(&mut c.r)).collect();
        let recs: Vec<Rec> = values
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let mut rec = record(i, v);
                if wide {
                    rec.fields[1].subs.push(Sub { code: b'b', value: others[i].clone().into_bytes() });
                }
                rec
            })
            .collect();
        let data = recs.iter().flat_map(Rec::encode).collect::<Vec<u8>>();
        let f = w.write("in.dat", &data);
        let nf = c.r.chance(4, 5).then(|| *c.r.pick(&NFS));
        let cnf = c.r.chance(1, 2).then(|| *c.r.pick(&NFS));
        let mut args = config(&mut c.r, &w, cnf);
        let cmd = *c.r.pick(&["select", "print", "frequency"]);
        args.push(cmd.into());
        if let Some(nf) = nf {
            args.extend(words(&["--translit", nf.name()]));
        }
        match cmd {
            "print" => args.push(f),
            "select" if wide => args.extend(words(&["003@.0,012A{a,b}", &f])),
            "select" => args.extend(words(&["003@.0,012A.a", &f])),
            _ if wide => args.extend(words(&["012A.a, 012A.b", &f])),
            _ => args.extend(words(&["012A.a", &f])),
        }
        let want = match cmd {
            "print" => {
                values
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let b = if wide { format!(" $b {}", normalize(nf, &others[i])) } else { String::new() };
                        format!("003@ $0 {i}\n012A $a {}{b}\n\n", normalize(nf, v))
                    })
                    .collect::<String>()
                    .into_bytes()
            }
            "select" => {
                let rows: Vec<Vec<Vec<u8>>> = (0..n)
                    .map(|i| {
                        let mut row = vec![i.to_string().into(), normalize(nf, &values[i]).into()];
                        if wide {
                            row.push(normalize(nf, &others[i]).into());
                        }
                        row
                    })
                    .collect();
                crate::tables::csv_text(&rows, b',', crate::tables::Quotes::Necessary)
            }
            _ => {
                let mut table: std::collections::BTreeMap<Vec<&str>, usize> = Default::default();
                for (v, o) in values.iter().zip(&others).filter(|(v, _)| !v.is_empty()) {
                    let row = if wide { vec![&v[..], &o[..]] } else { vec![&v[..]] };
                    *table.entry(row).or_default() += 1;
                }
                let mut t: Vec<_> = table.into_iter().collect();
                t.sort_by_key(|e| usize::MAX - e.1);
                let rows: Vec<Vec<Vec<u8>>> =
                    t.into_iter()
                        .map(|(row, n)| {
                            row.iter().map(|v| normalize(nf, v).into()).chain([n.to_string().into()]).collect()
                        })
                        .collect();
                crate::tables::csv_text(&rows, b',', crate::tables::Quotes::Necessary)
            }
        };
        let out = w.run(&args, b"")?;
        let info = || format!("{}\n  {}", cmdline(&args), show(&data));
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        same_output(&out.out, &want, info)?;
        c.count("values written", n as u64);
        if values.iter().any(|v| normalize(nf, v) != *v) || wide && others.iter().any(|v| normalize(nf, v) != *v) {
            c.count("outputs changed by --translit", 1);
        }
        let k = values.iter().filter(|v| normalize(nf, v) != **v).count();
        c.sig(&format!("output/{cmd}/{}/{}/{}", nf.map_or("none", Nf::name), cnf.map_or("none", Nf::name), k.min(5)));
        Ok(())
    });
    ctx.run("files", 200, 4_000, |c| {
        let w = Work::new(ctx, c);
        let home = "home/.config/pica/config.toml";
        let custom = "some/where/cfg.toml";
        #[derive(Clone, Default, PartialEq)]
        struct State {
            skip: bool,
            nf: Option<&'static str>,
        }
        let mut files = [State::default(), State::default()];
        let mut shape = String::new();
        let mut log = String::new();
        for _ in 0..c.r.range(2, 14) {
            let k = c.r.below(2);
            let mut args = if k == 0 {
                vec![]
            } else {
                words(&[c.r.pick(&["-c", "--config"]), &w.path(custom)])
            };
            args.push("config".into());
            let key = *c.r.pick(&["skip-invalid", "normalization"]);
            let kind = *c.r.pick(&["set", "--set", "get", "--get", "--unset", "bad value", "bad key", "conflict", "remove", "edit"]);
            let s = &mut files[k];
            let before = s.clone();
            let mut want = None;
            let mut fails = false;
            match kind {
                "set" | "--set" => {
                    let v = if key == "skip-invalid" {
                        let b = c.r.bool();
                        s.skip = b;
                        if b { "true" } else { "false" }
                    } else {
                        let nf = c.r.pick(&NFS).name();
                        s.nf = Some(nf);
                        nf
                    };
                    if kind == "--set" {
                        args.push("--set".into());
                    }
                    args.extend(words(&[key, v]));
                    want = Some(String::new());
                }
                "get" | "--get" => {
                    if kind == "--get" {
                        args.push("--get".into());
                    }
                    args.push(key.into());
                    want = Some(if key == "skip-invalid" {
                        format!("{}\n", s.skip)
                    } else {
                        format!("{}\n", s.nf.unwrap_or("None"))
                    });
                }
                "--unset" => {
                    if key == "skip-invalid" {
                        s.skip = false;
                    } else {
                        s.nf = None;
                    }
                    args.extend(words(&["--unset", key]));
                    want = Some(String::new());
                }
                "bad value" => {
                    args.extend(words(&[key, c.r.pick(&["yes", "nfx", "NFC", "True", "", "1", "nfc "])]));
                    fails = true;
                }
                "bad key" => {
                    args.extend(words(&[*c.r.pick(&["skip_invalid", "x", "", "Normalization"]), "true"]));
                    fails = true;
                }
                "conflict" => {
                    let a: &[&str] =
                        *c.r.pick(&[&["--set", "--get"][..], &["--get", "--unset"], &["--set"], &["--unset", "--set"]]);
                    args.extend(words(a));
                    args.push(key.into());
                    if a.len() == 2 && a.contains(&"--set") {
                        args.push("true".into());
                    }
                    fails = true;
                }
                "remove" => {
                    let _ = fs::remove_file(w.dir.join([home, custom][k]));
                    *s = State::default();
                    args.extend(words(&["--get", key]));
                    want = Some(if key == "skip-invalid" { "false\n" } else { "None\n" }.into());
                }
                _ => {
                    // by hand
                    s.skip = c.r.bool();
                    s.nf = c.r.bool().then(|| c.r.pick(&NFS).name());
                    let mut t = format!("# by hand\nskip-invalid = {}\n", s.skip);
                    if let Some(nf) = s.nf {
                        t += &format!("normalization  =  '{nf}'\n");
                    }
                    w.write([home, custom][k], t.as_bytes());
                    args.extend(words(&["--get", key]));
                    want = Some(if key == "skip-invalid" {
                        format!("{}\n", s.skip)
                    } else {
                        format!("{}\n", s.nf.unwrap_or("None"))
                    });
                }
            }
            let now = s.clone();
            let old: Vec<Option<Vec<u8>>> = [home, custom].iter().map(|f| w.read(f).ok()).collect();
            let out = w.run(&args, b"")?;
            log += &format!("\n  {} -> {} {:?}", cmdline(&args), out.code, String::from_utf8_lossy(&out.out));
            shape += &format!("{k}{}{};", &kind[..3.min(kind.len())], &key[..1]);
            if fails {
                files[k] = before;
                out.failed().map_err(|e| format!("{e}; {log}"))?;
                c.count("refused changes", 1);
            } else {
                let o = out.ok().map_err(|e| format!("{e}; {log}"))?;
                if let Some(want) = &want
                    && o != want.as_bytes()
                {
                    return Err(format!("the answer should be {want:?};{log}"));
                }
            }
            c.count("steps of histories", 1);
            for (j, f) in [home, custom].iter().enumerate() {
                let new = w.read(f).ok();
                let changing = j == k && !fails && matches!(kind, "set" | "--set" | "--unset");
                if !changing && new != old[j] {
                    return Err(format!("{f} was changed;{log}"));
                }
                if changing {
                    // the file itself
                    let t = String::from_utf8(new.ok_or(format!("{f} was not written;{log}"))?)
                        .map_err(|e| format!("{f}: {e};{log}"))?;
                    let v: toml::Table = t.parse().map_err(|e| format!("{f}: {e};{log}"))?;
                    let skip = v.get("skip-invalid").and_then(|v| v.as_bool()).unwrap_or(false);
                    let nf = v.get("normalization").and_then(|v| v.as_str());
                    if skip != now.skip || nf != now.nf {
                        return Err(format!("{f} is now\n{t}{log}"));
                    }
                    c.count("written files read", 1);
                }
            }
            // and other commands follow it
            if c.r.chance(1, 3) {
                let s = &files[k];
                let v = "Mu\u{308}ller";
                let mut data = b"garbage\n".to_vec();
                for (i, nf) in NFS.iter().enumerate() {
                    data.extend(record(i, &nf.apply(v)).encode());
                }
                let mut a = if k == 0 { vec![] } else { words(&["-c", &w.path(custom)]) };
                a.extend(words(&["select", "003@.0", "--where", "012A.a == 'M\u{fc}ller'"]));
                let out = w.run(&a, &data)?;
                let info = || format!("{};{log}", cmdline(&a));
                if !s.skip {
                    out.failed().map_err(|e| format!("{e}; {}", info()))?;
                } else {
                    let lit = NFS.iter().find(|n| Some(n.name()) == s.nf).map_or("M\u{fc}ller".into(), |n| n.apply("M\u{fc}ller"));
                    let want: String =
                        NFS.iter().enumerate().filter(|(_, n)| n.apply(v) == lit).map(|(i, _)| format!("{i}\n")).collect();
                    out.ok().map_err(|e| format!("{e}; {}", info()))?;
                    same_output(&out.out, want.as_bytes(), info)?;
                }
                c.count("commands run under the configuration", 1);
            }
        }
        c.sig(&shape);
        Ok(())
    });
    ctx.run("broken", 200, 3_000, |c| {
        let w = Work::new(ctx, c);
        let kinds = [
            "garbage", "wrong type", "unknown form", "directory", "binary", "duplicate", "no permission", "array",
        ];
        let kind = kinds[c.idx as usize % kinds.len()];
        if kind == "no permission" && !contained() {
            return Ok(());
        }
        let rel = if c.r.bool() { "cfg.toml" } else { "home/.config/pica/config.toml" };
        match kind {
            "garbage" => w.write(rel, c.r.pick::<&[u8]>(&[b"= = =\n", b"[[[", b"skip-invalid", b"\"", b"skip-invalid = tru"])),
            "wrong type" => w.write(rel, c.r.pick::<&[u8]>(&[b"skip-invalid = 1\n", b"skip-invalid = \"true\"\n", b"skip-invalid = true\nnormalization = 5\n"])),
            "unknown form" => w.write(rel, b"skip-invalid = true\nnormalization = \"nfx\"\n"),
            "binary" => w.write(rel, b"skip-invalid = true\n# \xff\xfe\n"),
            "duplicate" => w.write(rel, b"skip-invalid = true\nskip-invalid = false\n"),
            "array" => w.write(rel, b"skip-invalid = [true]\n"),
            "no permission" => {
                let p = w.write(rel, b"skip-invalid = true\n");
                let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0));
                p
            }
            _ => {
                if rel != "cfg.toml" {
                    // only a file counts
                    return Ok(());
                }
                w.write("cfg.toml/x", b"")
            }
        };
        let mut args = if rel == "cfg.toml" { words(&["-c", &w.path(rel)]) } else { vec![] };
        let o = Opts { utf8: true, ..Default::default() };
        let ls = stream(&mut c.r, 5, &o);
        let inp = input(&mut c.r, &w, ls);
        let name = *c.r.pick(READING);
        if c.r.chance(1, 4) {
            args.extend(words(c.r.pick::<&[&str]>(&[&["config", "skip-invalid"], &["config", "normalization", "nfc"]])));
        } else {
            let recs = inp.recs();
            let mut cmd = Cmd::random(&mut c.r, &w, name, &recs, Default::default());
            let mut sel = Sel::all();
            let so = if SELECTING.contains(&name) { cmd.selection(&mut c.r, &w, &mut sel) } else { vec![] };
            let t = Target::random(&mut c.r, &w, &cmd, "x");
            args.extend(cmd.line(&mut c.r, &so, &t, &inp.args));
        }
        let out = w.run_with(&args, &inp.setup())?;
        c.count("unusable configurations", 1);
        c.sig(&format!("broken/{kind}/{rel}/{name}"));
        if out.crashed() {
            return Err(format!("crash ({kind}): {} {}; {}", out.code, out.err.trim(), cmdline(&args)));
        }
        out.failed().map_err(|e| format!("{kind}: {e}; {}", cmdline(&args)))
    });
    ctx.require("values selected", 1_000);
    ctx.require("expressions changed by the normalization", 200);
    ctx.require("commands with changed expressions", 200);
    ctx.require("outputs changed by --translit", 50);
    ctx.require("steps of histories", 500);
}
