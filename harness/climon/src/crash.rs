//! Hostile inputs, expressions and options.
use model::expr::*;
use model::fmt::Format;
use model::generate::{self, Opts};
use model::mon::*;
use model::query::{Path, Query};
use model::rec::*;
use model::rng::Rng;
use serde_json::json;

use crate::checks;
use crate::cli::*;
use crate::cmds::*;

/// Runs the program; anything but a normal end is a violation.
fn run(w: &Work, c: &mut Case, args: &[String], s: Setup, what: impl Fn() -> String) -> Result<Out, String> {
    let mut out = w.run_with(args, &Setup { timeout: Some(60), ..s_clone(&s) })?;
    if out.hung {
        out = w.run_with(args, &Setup { timeout: Some(120), ..s })?;
    }
    let short: Vec<String> = args
        .iter()
        .map(|a| if a.chars().count() > 3000 { a.chars().take(3000).collect::<String>() + "..." } else { a.clone() })
        .collect();
    let e: String = out.err.chars().take(2000).collect();
    if out.hung {
        return Err(format!("no end after 120 s: {}; {}", cmdline(&short), what()));
    }
    if out.crashed() || !matches!(out.code, 0..=2) {
        return Err(format!("exit status {}: {}; {}; {}", out.code, e.trim(), cmdline(&short), what()));
    }
    if out.code != 0 {
        if out.err.trim().is_empty() {
            return Err(format!("exit status {} without a message; {}; {}", out.code, cmdline(&short), what()));
        }
        c.count("runs ending with an error", 1);
    } else {
        c.count("runs ending well", 1);
    }
    Ok(out)
}

fn s_clone(s: &Setup) -> Setup {
    Setup { stdin: s.stdin.clone(), pipe: s.pipe, ..Default::default() }
}

/// Random damage.
pub fn mutate(r: &mut Rng, d: &mut Vec<u8>, alphabet: &[u8]) {
    for _ in 0..r.range(1, 6) {
        let n = d.len();
        let at = r.below(n + 1);
        match r.below(7) {
            0 if n > 0 => {
                d.remove(at.min(n - 1));
            }
            1 => d.insert(at, *r.pick(alphabet)),
            2 if n > 0 => d[at.min(n - 1)] = *r.pick(alphabet),
            3 if n > 0 => d[at.min(n - 1)] = r.below(256) as u8,
            4 if n > 1 => {
                // a piece twice, somewhere else
                let to = (at + r.range(1, 20)).min(n);
                let piece = d[at.min(to)..to].to_vec();
                let p = r.below(d.len() + 1);
                d.splice(p..p, piece);
            }
            5 if n > 1 => {
                let to = (at + r.range(1, 20)).min(n);
                d.drain(at.min(to)..to);
            }
            _ => {
                if n > 1 {
                    d.truncate(at.max(1));
                }
            }
        }
    }
}

const TOKENS: &[&str] = &[
    "003@", "012A", "0...", "[012]1[A-C]@", "012[AB]", "1", "/", "/*", "/00", "/01-10", "/99-0", "?", "!", "#", "{", "}", "(", ")",
    "[", "]", "|", "||", "&&", "^", "==", "!=", "===", "=^", "!^", "=$", "!$", "=~", "!~", "=*", "!*", "=?", "!?",
    "in", "not", "ANY", "ALL", "COUNT", "<", "<=", ">", ">=", "..", "<$>", "<*>", "'a'", "\"a\"", "'", "\"", "\\", "\\u{1F600}",
    "\\u{110000}", "\\u{", "\\x41", ".", ",", ";", " ", "\t", "\n", "a", "0", "aB9", "[a-z]", "[z-a]", "*", "$", "$a", "?L", "?U",
    "?T", "?W", ":", "@", "-", "--", "18446744073709551616", "4294967296", "99999999999999999999", "ü", "日", "\u{301}", "𝄞",
    "true", "cardinality", "&", "=", "~", "<", "%",
];

/// An expression that is nearly one, or none at all.
fn hostile(r: &mut Rng, recs: &[&Rec]) -> String {
    let some = Rec { fields: vec![generate::ppn_field(r)] };
    let rec: &Rec = if recs.is_empty() { &some } else { recs[r.below(recs.len())] };
    loop {
        let t = match r.below(10) {
            0 | 1 => {
                let n = r.range(1, 12);
                (0..n).map(|_| *r.pick(TOKENS)).collect::<String>()
            }
            2 => (0..r.below(12)).filter_map(|_| char::from_u32(r.below(0x3000) as u32)).collect(),
            k => {
                let st = Style::random(r);
                let mut t = match k {
                    3 | 4 => cond_for(r, rec, 2).text(r, &st),
                    5 => Query::random(r, Some(rec)).text(r, &st),
                    6 => Path::random(r, Some(rec)).text(r, &st),
                    7 => Format::random(r, Some(rec)).text(r, &st),
                    _ => {
                        let (a, b) = (cond_for(r, rec, 1).text(r, &st), Query::random(r, Some(rec)).text(r, &st));
                        let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
                        let (i, j) = (r.below(a.len() + 1), r.below(b.len() + 1));
                        a[..i].iter().chain(&b[j..]).collect()
                    }
                };
                if r.chance(4, 5) {
                    // damage by tokens
                    for _ in 0..r.range(1, 4) {
                        let mut cs: Vec<char> = t.chars().collect();
                        let at = r.below(cs.len() + 1);
                        match r.below(3) {
                            0 if !cs.is_empty() => {
                                cs.remove(at.min(cs.len() - 1));
                            }
                            1 if !cs.is_empty() => {
                                let to = (at + r.below(6)).min(cs.len());
                                cs.drain(at.min(to)..to);
                            }
                            _ => {
                                let x: Vec<char> = r.pick(TOKENS).chars().collect();
                                cs.splice(at..at, x);
                            }
                        }
                        t = cs.into_iter().collect();
                    }
                }
                t
            }
        };
        if passable(&t) {
            return t;
        }
    }
}

/// Expressions of some size and depth.
fn deep(r: &mut Rng, n: usize) -> (&'static str, &'static str, String) {
    let conds = ["003@?", "012A.a == 'x'", "012A{a == 'x' && b?}", "#012A > 1", "012A.a in ['x', 'y']", "!012A?"];
    let atom = *r.pick(&conds);
    let subs = ["a == 'x'", "a?", "b =^ 'y'", "#a > 2", "a in ['x']"];
    let sub = *r.pick(&subs);
    let join = |r: &mut Rng, x: &str, ops: &[&str]| {
        let mut t = x.to_string();
        for _ in 1..n {
            t += r.pick::<&str>(ops);
            t += x;
        }
        t
    };
    let kinds = [
        "parens", "nots", "chain", "mixed chain", "right parens", "left parens", "field parens", "field nots",
        "field chain", "list", "long string", "columns", "format groups", "format chain", "format alternatives",
        "codes", "regex", "regex parens", "tag class", "occurrence", "unclosed", "unopened", "escapes", "spaces",
        "field right parens", "keep", "regex list",
    ];
    let kind = *r.pick(&kinds);
    let (place, t) = match kind {
        "parens" => ("filter", format!("{}{atom}{}", "(".repeat(n), ")".repeat(n))),
        "nots" => ("filter", format!("{}{atom}{}", "!(".repeat(n), ")".repeat(n))),
        "chain" => {
            let op = *r.pick(&[" && ", " || ", " ^ ", "&&"]);
            ("filter", join(r, atom, &[op]))
        }
        "mixed chain" => ("filter", join(r, atom, &[" && ", " || ", " ^ "])),
        "right parens" => {
            let op = *r.pick(&["&&", "||", "^"]);
            ("filter", format!("{}{atom}{}", format!("{atom} {op} (").repeat(n), ")".repeat(n)))
        }
        "left parens" => {
            let op = *r.pick(&["&&", "||", "^"]);
            ("filter", format!("{}{atom}{}", "(".repeat(n), format!(") {op} {atom}").repeat(n)))
        }
        "field parens" => ("filter", format!("012A{{ {}{sub}{} }}", "(".repeat(n), ")".repeat(n))),
        "field nots" => ("filter", format!("012A{{ {}{sub}{} }}", "!(".repeat(n), ")".repeat(n))),
        "field right parens" => {
            ("filter", format!("012A{{ {}{sub}{} }}", format!("{sub} && (").repeat(n), ")".repeat(n)))
        }
        "field chain" => ("filter", format!("012A{{ {} }}", join(r, sub, &[" && ", " || "]))),
        "list" => ("filter", format!("012A.a in [{}]", join(r, "'x'", &[", ", ","]))),
        "regex list" => ("filter", format!("012A.a =~ [{}]", join(r, "'x'", &[", ", ","]))),
        "long string" => ("filter", format!("012A.a == '{}'", "xü".repeat(n))),
        "columns" => ("select", join(r, "003@.0", &[", ", ","])),
        "format groups" => ("select", format!("012A{{ {}a{} }}", "(".repeat(n), ")".repeat(n))),
        "format chain" => ("select", format!("012A{{ {} }}", join(r, "a", &[" <$> ", " <*> "]))),
        "format alternatives" => ("select", format!("012A{{ {}a <$> b{} }}", "(a <*> ".repeat(n), ")".repeat(n))),
        "codes" => ("select", format!("012A{{ ({}) }}", join(r, "a", &[", "]))),
        "regex" => ("filter", format!("012A.a =~ '{}'", "(a|b)*x{2,9}".repeat(n))),
        "regex parens" => ("filter", format!("012A.a =~ '{}a{}'", "(".repeat(n), ")".repeat(n))),
        "tag class" => ("filter", format!("0[{}]2A?", "12".repeat(n))),
        "occurrence" => ("filter", format!("012A/{}?", "1".repeat(n))),
        "unclosed" => ("filter", r.pick(&["(", "{", "[", "012A{", "!", "'", "012A{ (", "012A.a in ["]).repeat(n)),
        "unopened" => ("filter", format!("{atom}{}", r.pick(&[")", "}", "]", " &&", "'"]).repeat(n))),
        "escapes" => ("filter", format!("012A.a == '{}'", r.pick(&["\\n", "\\u{e4}", "\\'", "\\\\"]).repeat(n))),
        "spaces" => ("filter", format!("012A.a {} 'x'", " ".repeat(n))),
        _ => ("keep", join(r, "012A/01", &[",", ", "])),
    };
    (kind, place, t)
}

const NUMBERS: &[&str] = &[
    "0", "1", "2", "-1", "18446744073709551615", "18446744073709551616", "9223372036854775807", "4294967295",
    "4294967296", "99999999999999999999999", "1e3", "", " 1", "0x10", "٣", "+5", "100", "99", "nan", "1.5",
];

const STRINGS: &[&str] = &[
    "", " ", ",", ",,,", "\"", "'", "a,b", "ü", "日本", "{}", "{}{}", "{", "}", "{0}", "\u{301}", "\t", "\n", "a\nb", "-", "--",
    "%s", "\\", ".", "x.gz", ".gz", "nfc", "NFC", "idn", "always", "xml",
];

/// Options with values for each command.
const OPTIONS: &[(&str, &[&str], &[&str])] = &[
    ("concat", &[], &["--unique-strategy"]),
    ("convert", &[], &["-f", "-t"]),
    ("count", &["-l", "--strsim-threshold"], &["--filter-set-column", "--filter-set-source"]),
    ("describe", &["-l"], &["-k", "-d"]),
    ("explode", &["-l"], &["-k", "-d", "POS"]),
    ("filter", &["-l", "--strsim-threshold"], &["-k", "-d"]),
    ("frequency", &["-l", "--threshold", "-n"], &["-H", "--separator", "--translit"]),
    ("hash", &["-l"], &["-H"]),
    ("partition", &["-l"], &["-t", "-o"]),
    ("print", &["-l"], &["--translit"]),
    ("sample", &["--seed", "POS", "POS"], &[]),
    ("select", &["-l", "--strsim-threshold"], &["-H", "--separator", "--quote-style", "--translit"]),
    ("slice", &["--start", "--end", "--length", "-l"], &[]),
    ("split", &["POS", "POS", "-l"], &["--template", "-o"]),
];

pub fn c33(ctx: &mut Ctx) {
    ctx.rule(
        "Every run of the program must end within the time with status 0, 1 or 2, without a panic or \
         signal, and with a message if it is not 0 (stack 8 MB). 'inputs': damaged and random streams and \
         compressed files through all commands; 'expressions': damaged, spliced and random expressions in all \
         places that take one; 'deep': expressions of up to 5000 operands or levels; 'options': extreme and \
         senseless option values; 'rules': rules of every kind over values damaged for them; 'files': damaged rule sets, lists, configurations and expression files; \
         'bytes': records with invalid UTF-8, which commands that write records must not change. A situation \
         is the workload with the command, the kind of damage and the way the run ended.",
    );
    let end = |o: &Out| match o.code {
        0 => "ok".to_string(),
        _ => {
            // the first words of the message
            o.err.split(|c: char| !c.is_alphabetic() && c != ' ').next().unwrap_or("").chars().take(24).collect()
        }
    };
    let all: Vec<&'static str> = READING.iter().copied().chain(["invalid"]).collect();
    ctx.run("inputs", 800, 40_000, |c| {
        let w = Work::new(ctx, c);
        let name = all[c.idx as usize % all.len()];
        let o = Opts::default();
        let ls = stream(&mut c.r, 8, &o);
        let recs: Vec<Rec> = ls.iter().filter_map(|l| Rec::decode(l)).collect();
        let refs: Vec<&Rec> = recs.iter().collect();
        let kind = *c.r.pick(&["mutated", "random", "mutated", "gzip", "huge line", "tokens", "empty"]);
        let mut data = ls.concat();
        match kind {
            "mutated" => mutate(&mut c.r, &mut data, b"\n\x1e\x1f /0129@AZaz\x00\xff\xc3\r$"),
            "random" => data = (0..c.r.below(500)).map(|_| c.r.below(256) as u8).collect(),
            "huge line" => {
                let n = *c.r.pick(&[10_000, 100_000, 1_000_000]);
                let b = *c.r.pick(&b"x\x1e\x1f0 "[..]);
                let at = c.r.below(data.len() + 1);
                data.splice(at..at, vec![b; n]);
            }
            "tokens" => {
                let t: &[&[u8]] = &[
                    b"003@", b"012A", b" ", b"/01", b"/", b"\x1f", b"\x1f0", b"\x1fa", b"\x1e", b"\n", b"x", b"\xff", b"\x1e\n", b"9", b"\r",
                ];
                data = (0..c.r.below(60)).flat_map(|_| c.r.pick(t).to_vec()).collect();
            }
            "empty" => data.clear(),
            _ => {}
        }
        let mut cmd = if name == "invalid" {
            Cmd::none("invalid")
        } else {
            Cmd::random(&mut c.r, &w, name, &refs, Default::default())
        };
        let mut so = if name == "filter" { cmd.selection(&mut c.r, &w, &mut Sel::all()) } else { vec![] };
        let skip = name != "invalid" && c.r.bool();
        if skip {
            so.push("-s".into());
        }
        let t = if name == "invalid" { Target::stdout() } else { Target::random(&mut c.r, &w, &cmd, "x") };
        let gz = kind == "gzip" || c.r.chance(1, 4);
        let mut s = Setup { pipe: c.r.bool(), ..Default::default() };
        let mut inputs = vec![];
        if gz {
            let mut z = gzip(&data);
            if kind == "gzip" {
                let a: Vec<u8> = (0..=255).collect();
                mutate(&mut c.r, &mut z, &a);
            }
            inputs.push(w.write("in.dat.gz", &z));
        } else if c.r.bool() {
            s.stdin = data.clone();
        } else {
            inputs.push(w.write("in.dat", &data));
        }
        let args = cmd.line(&mut c.r, &so, &t, &inputs);
        let out = run(&w, c, &args, s, || format!("{kind}: {}{}", show(&data[..data.len().min(5000)]), cmd.note))?;
        c.sig(&format!("inputs/{name}/{kind}/{gz}/{skip}/{}", end(&out)));
        Ok(())
    });
    ctx.run("expressions", 1_200, 60_000, |c| {
        let w = Work::new(ctx, c);
        let o = Opts { max_fields: 4, ..Default::default() };
        let ls = stream(&mut c.r, 5, &o);
        let recs: Vec<Rec> = ls.iter().filter_map(|l| Rec::decode(l)).collect();
        let refs: Vec<&Rec> = recs.iter().collect();
        let f = w.write("in.dat", &ls.concat());
        let e = hostile(&mut c.r, &refs);
        let places = [
            "filter", "filter", "filter -F", "select", "select", "frequency", "partition", "where", "and", "not", "or",
            "source", "keep", "discard", "rule", "scope", "rule path", "header",
        ];
        let place = *c.r.pick(&places);
        let eq = |o: &str| format!("--{o}={e}");
        let args: Vec<String> = match place {
            "filter" => words(&["filter", "--", &e, &f]),
            "filter -F" => {
                let x = w.write("e.txt", e.as_bytes());
                words(&["filter", "-F", &x, &f])
            }
            "partition" => {
                let d = w.path("parts");
                words(&["partition", "-o", &d, "--", &e, &f])
            }
            "where" => words(&["select", &eq("where"), "003@.0", &f]),
            "and" | "not" | "or" => words(&["filter", &eq(place), "003@?", &f]),
            "source" => {
                let l = w.write("l.csv", b"ppn\n1\n");
                words(&["count", "-A", &l, &eq("filter-set-source"), &f])
            }
            "keep" | "discard" => words(&["filter", &eq(place), "003@?", &f]),
            "rule" | "scope" | "rule path" => {
                let lit = checks::toml_str(&e);
                let t = match place {
                    "rule" => format!("[rule.A]\ncheck = \"filter\"\nfilter = {lit}\n"),
                    "scope" => format!("scope = {lit}\n[rule.A]\ncheck = \"unicode\"\n"),
                    _ => format!("[rule.A]\ncheck = \"isni\"\npath = {lit}\n"),
                };
                let x = w.write("rules.toml", t.as_bytes());
                words(&["check", "-R", &x, &f])
            }
            "header" => words(&["select", &eq("header"), "003@.0,012A.a", &f]),
            _ => words(&[place, "--", &e, &f]),
        };
        let out = run(&w, c, &args, Setup::default(), || format!("{place}: {e:?}"))?;
        c.sig(&format!("expressions/{place}/{}", end(&out)));
        c.sig_hash(model::rng::fnv(e.as_bytes()));
        c.sample(|| json!({"place": place, "expression": e, "status": out.code}));
        Ok(())
    });
    ctx.run("deep", 150, 3_000, |c| {
        let w = Work::new(ctx, c);
        let n = *c.r.pick(&[10, 100, 500, 1000, 2000, 5000]);
        let (kind, place, e) = deep(&mut c.r, n);
        let f = w.write("in.dat", b"003@ \x1f01\x1e012A \x1fax\x1fby\x1e\n003@ \x1f02\x1e\n");
        let args = match place {
            "filter" => {
                if passable(&e) && c.r.bool() {
                    words(&["filter", "--", &e, &f])
                } else {
                    let x = w.write("e.txt", e.as_bytes());
                    words(&["filter", "-F", &x, &f])
                }
            }
            "keep" => words(&["filter", &format!("--keep={e}"), "003@?", &f]),
            _ => words(&[place, "--", &e, &f]),
        };
        if !args.iter().all(|a| passable(a)) {
            return Ok(());
        }
        let out = run(&w, c, &args, Setup::default(), || format!("{kind} of size {n}"))?;
        c.count("deep expressions", 1);
        c.sig(&format!("deep/{kind}/{n}/{}", end(&out)));
        Ok(())
    });
    ctx.run("options", 600, 20_000, |c| {
        let w = Work::new(ctx, c);
        let o = Opts { utf8: true, ..Default::default() };
        let ls = stream(&mut c.r, 8, &o);
        let recs: Vec<Rec> = ls.iter().filter_map(|l| Rec::decode(l)).collect();
        let refs: Vec<&Rec> = recs.iter().collect();
        let (name, nums, strs) = OPTIONS[c.idx as usize % OPTIONS.len()];
        let mut cmd = Cmd::random(&mut c.r, &w, name, &refs, Default::default());
        let mut so = if name == "filter" { cmd.selection(&mut c.r, &w, &mut Sel::all()) } else { vec![] };
        let mut shape = String::new();
        for _ in 0..c.r.range(1, 2) {
            let (opt, v) = if !nums.is_empty() && (strs.is_empty() || c.r.bool()) {
                (*c.r.pick(nums), c.r.pick(NUMBERS).to_string())
            } else if !strs.is_empty() {
                (*c.r.pick(strs), if c.r.chance(1, 6) { "long".repeat(500) } else { c.r.pick(STRINGS).to_string() })
            } else {
                continue;
            };
            shape += &format!("{opt}={}", v.chars().take(12).collect::<String>());
            if opt == "POS" {
                cmd.pos = vec![v];
            } else if opt.starts_with("--") {
                so.push(format!("{opt}={v}"));
            } else {
                so.extend([opt.to_string(), v]);
            }
        }
        let t = if cmd.dir || c.r.bool() { Target::stdout() } else { Target::random(&mut c.r, &w, &cmd, "x") };
        let mut inputs = vec![w.write("in.dat", &ls.concat())];
        if c.r.chance(1, 4) {
            let x = c.r.pick(&["-", "missing.dat", "home", "", "in.dat", "missing.dat.gz", "/dev/null"]).to_string();
            let at = c.r.below(2);
            shape += &x;
            inputs.insert(at, x);
        }
        if c.r.chance(1, 30) {
            // the output is an input
            so.extend(words(&["-o", "in.dat"]));
        }
        let args = cmd.line(&mut c.r, &so, &t, &inputs);
        let out = run(&w, c, &args, Setup::default(), || cmd.note.clone())?;
        c.sig(&format!("options/{name}/{shape}/{}", end(&out)));
        Ok(())
    });
    ctx.run("rules", 600, 20_000, |c| {
        let w = Work::new(ctx, c);
        let name = checks::SPECIAL[c.idx as usize % checks::SPECIAL.len()];
        let ls = stream(&mut c.r, 6, &Opts::default());
        let mut recs: Vec<Rec> = ls.iter().filter_map(|l| Rec::decode(l)).collect();
        for rec in &mut recs {
            for _ in 0..c.r.range(1, 3) {
                let mut f = checks::special_field(&mut c.r, name);
                for s in &mut f.subs {
                    match c.r.below(5) {
                        0 => {
                            let n = c.r.below(s.value.len() + 1);
                            s.value.truncate(n);
                        }
                        1 => {
                            mutate(&mut c.r, &mut s.value, b"0129X-:. aA\xff\xc3\xe2\x82\xac%\t");
                            s.value.retain(|b| !matches!(b, 0x1e | 0x1f | b'\n'));
                        }
                        2 => s.value = generate::value(&mut c.r, &Opts::default()),
                        _ => {}
                    }
                }
                rec.fields.push(f);
            }
        }
        let refs: Vec<&Rec> = recs.iter().collect();
        let mut text = String::new();
        for i in 0..c.r.range(1, 3) {
            let (_, mut t) = checks::random_rule(&mut c.r, &w, &refs, name, format!("R{i}"), i);
            if name == "datetime" {
                let n = *c.r.pick(&[0, 1, 2, 4, 9, 10, 11, 200, 1 << 31, i64::MAX as u64]);
                let lines: Vec<&str> = t.lines().filter(|l| !l.starts_with("offset")).collect();
                t = format!("{}\noffset = {n}\n", lines.join("\n").trim_end());
            }
            text += &t;
        }
        let x = w.write("rules.toml", text.as_bytes());
        let data: Vec<u8> = recs.iter().flat_map(Rec::encode).collect();
        let f = w.write("in.dat", &data);
        let mut args = words(&["check", "-R", &x, &f]);
        if c.r.chance(1, 4) {
            args.extend(["-o".into(), w.path(*c.r.pick(&["out.csv", "out.tsv", "out.txt"]))]);
        }
        let out = run(&w, c, &args, Setup::default(), || format!("\n--- rules.toml\n{text}--- in.dat: {}", show(&data)))?;
        if out.code == 0 {
            c.count("rule sets that ran", 1);
        }
        c.sig(&format!("rules/{name}/{}/{}", end(&out), recs.len().min(3)));
        Ok(())
    });
    ctx.run("files", 600, 20_000, |c| {
        let w = Work::new(ctx, c);
        let o = Opts { utf8: true, ..Default::default() };
        let ls = stream(&mut c.r, 6, &o);
        let recs: Vec<Rec> = ls.iter().filter_map(|l| Rec::decode(l)).collect();
        let refs: Vec<&Rec> = recs.iter().collect();
        let f = w.write("in.dat", &ls.concat());
        let kind = *c.r.pick(&["rules", "rules", "list", "list", "config", "expression"]);
        let bytes: Vec<u8> = (0..=255).collect();
        let mut detail = "";
        let args = match kind {
            "rules" => {
                let names = ["allow", "datetime", "duplicates", "filter", "isni", "iso639-2b", "jelc", "link", "unicode"];
                let mut t = String::new();
                for i in 0..c.r.range(1, 3) {
                    detail = *c.r.pick(&names);
                    t += &checks::random_rule(&mut c.r, &w, &refs, detail, format!("R{i}"), i).1;
                }
                let mut d = t.into_bytes();
                match c.r.below(4) {
                    0 => mutate(&mut c.r, &mut d, b"=[]\"'.{}\n#1a-"),
                    1 => {
                        let s = String::from_utf8_lossy(&d).into_owned();
                        let k = ["path", "check", "filter", "format", "values", "offset", "level", "tags", "set"];
                        let from = *c.r.pick(&k);
                        let to = *c.r.pick(&["x", "path", "check", "level", "tags"]);
                        d = s.replace(&format!("{from} ="), &format!("{to} =")).into_bytes();
                    }
                    2 => {
                        let s = String::from_utf8_lossy(&d).into_owned();
                        let v = *c.r.pick(&["1", "-1", "[]", "{}", "true", "\"\"", "99999999999999999999", "1.5", "[\"a\"]", "\"012A\"", "nan", "2024-01-01", "9223372036854775807"]);
                        let lines: Vec<String> = s.lines().map(str::to_string).collect();
                        let at = c.r.below(lines.len().max(1));
                        d = lines
                            .iter()
                            .enumerate()
                            .map(|(i, l)| match l.split_once(" = ") {
                                Some((k, _)) if i == at => format!("{k} = {v}\n"),
                                _ => format!("{l}\n"),
                            })
                            .collect::<String>()
                            .into_bytes();
                    }
                    _ => {
                        let extra = *c.r.pick(&[
                            "strsim-threshold = 7.5\n", "strsim-threshold = -1\n", "offset = 18446744073709551615\n",
                            "offset = -1\n", "level = \"x\"\n", "check = \"none\"\n", "[rule]\n", "[rule.\"\"]\n",
                            "scope = \"\"\n", "termination = \"x\"\n", "tags = \"x\"\n", "format = \"%\"\n", "format = \"%Q%%\"\n",
                        ]);
                        d.extend_from_slice(extra.as_bytes());
                    }
                }
                let x = w.write("rules.toml", &d);
                let mut a = words(&["check", "-R", &x, &f]);
                if c.r.chance(1, 4) {
                    a.extend(words(&["-r", *c.r.pick(&["(", "[", "^R", "\\", "", "*", "(?i)r"])]));
                }
                a
            }
            "list" => {
                let values: Vec<String> = (0..c.r.below(6)).map(|_| generate::text(&mut c.r, &Opts::clean())).collect();
                let fs = ["csv", "csv.gz", "tsv", "tsv.gz", "txt", "txt.gz", "ipc", "other"];
                detail = *c.r.pick(&fs);
                let p = crate::lists::write_list_as(&mut c.r, &w, "l", &values, None, detail);
                let mut d = std::fs::read(&p).map_err(|e| e.to_string())?;
                match c.r.below(4) {
                    0 => d = (0..c.r.below(200)).map(|_| c.r.below(256) as u8).collect(),
                    1 => d.clear(),
                    _ if detail == "ipc" || detail.ends_with("gz") => mutate(&mut c.r, &mut d, &bytes),
                    _ => mutate(&mut c.r, &mut d, b",\t\"\n\r'\xff;"),
                }
                std::fs::write(&p, &d).map_err(|e| e.to_string())?;
                let mut a = words(&["select", *c.r.pick(&["-A", "-D"]), &p, "003@.0", &f]);
                if c.r.chance(1, 4) {
                    a.extend(words(&["--filter-set-column", *c.r.pick(&["ppn", "", "x", "column_1"])]));
                }
                a
            }
            "config" => {
                let mut d = b"skip-invalid = true\nnormalization = \"nfc\"\n".to_vec();
                mutate(&mut c.r, &mut d, b"=[]\"'.{}\n#1a-");
                let x = w.write("cfg.toml", &d);
                let cmd: &[&str] = *c.r.pick(&[&["count"][..], &["config", "skip-invalid"], &["config", "normalization", "nfd"]]);
                let mut a = words(&["-c", &x]);
                a.extend(words(cmd));
                if cmd == ["count"] {
                    a.push(f);
                }
                a
            }
            _ => {
                let e = hostile(&mut c.r, &refs);
                let mut d = e.into_bytes();
                mutate(&mut c.r, &mut d, &bytes);
                let x = w.write("e.txt", &d);
                words(&["filter", "-F", &x, &f])
            }
        };
        let out = run(&w, c, &args, Setup::default(), || {
            let names = ["rules.toml", "cfg.toml", "e.txt", "l.csv", "l.tsv", "l.txt", "l.ipc", "l.lst"];
            names
                .iter()
                .filter_map(|n| Some(format!("\n--- {n}\n{}", String::from_utf8_lossy(&w.read(n).ok()?))))
                .collect()
        })?;
        c.sig(&format!("files/{kind}/{detail}/{}", end(&out)));
        Ok(())
    });
    ctx.run("bytes", 500, 15_000, |c| {
        let w = Work::new(ctx, c);
        let name = READING[c.idx as usize % READING.len()];
        let o = Opts { max_fields: 4, ..Default::default() };
        let mut ls = stream(&mut c.r, 8, &o);
        let mut rec = generate::record(&mut c.r, &o);
        let v = c.r.pick(generate::INVALID).to_vec();
        if rec.fields.is_empty() {
            rec.fields.push(generate::ppn_field(&mut c.r));
        }
        let i = c.r.below(rec.fields.len());
        rec.fields[i].subs.push(Sub { code: b'a', value: v });
        let at = c.r.below(ls.len() + 1);
        ls.insert(at, rec.encode());
        let inp = input(&mut c.r, &w, ls);
        let recs = inp.recs();
        let mut sel = if SELECTING.contains(&name) && c.r.bool() {
            Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true })
        } else {
            Sel::all()
        };
        let mut cmd = Cmd::random(&mut c.r, &w, name, &recs, sel.mopts());
        cmd.opts.retain(|o| !matches!(&o[..], "--keep" | "--discard" | "-k" | "-d"));
        if matches!(name, "explode" | "filter") {
            cmd.opts.clear();
        }
        let so = if SELECTING.contains(&name) { cmd.selection(&mut c.r, &w, &mut sel) } else { vec![] };
        let t = Target::random(&mut c.r, &w, &cmd, "x");
        let args = cmd.line(&mut c.r, &so, &t, &inp.args);
        let out = run(&w, c, &args, inp.setup(), || format!("{}{}", cmd.note, inp.describe()))?;
        c.sig(&format!("bytes/{name}/{}/{}", t.kind, end(&out)));
        if out.code != 0 || !matches!(name, "concat" | "filter" | "sample" | "slice" | "partition" | "split") {
            return Ok(());
        }
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        for (k, data) in t.outputs(&w, &out).map_err(|e| format!("{e}; {}", info()))? {
            for l in data.split_inclusive(|b| *b == b'\n') {
                if !inp.lines.iter().any(|x| x.data == l) {
                    return Err(format!("{k}: '{}' is no line of the input; {}", show(l), info()));
                }
                c.count("lines passed on", 1);
                if std::str::from_utf8(l).is_err() {
                    c.count("lines with invalid UTF-8 passed on", 1);
                }
            }
        }
        Ok(())
    });
    ctx.run("chains", 1, 3, |c| {
        // known: the evaluation of chains is recursive
        let w = Work::new(ctx, c);
        let n = 60_000;
        let e = vec!["003@?"; n].join(["||", "&&", "^"][c.idx as usize % 3]);
        let x = w.write("e.txt", e.as_bytes());
        let f = w.write("in.dat", b"003@ \x1f01\x1e\n");
        let out = w.run_with(&words(&["filter", "-F", &x, &f]), &Setup { timeout: Some(100), ..Default::default() })?;
        if out.crashed() {
            ctx.finding("long-chain", &format!("a chain of {n} operands ends the program (status {})", out.code));
        }
        Ok(())
    });
    ctx.require("runs ending well", 500);
    ctx.require("runs ending with an error", 500);
    ctx.require("deep expressions", 100);
    ctx.require("rule sets that ran", 300);
    ctx.require("lines with invalid UTF-8 passed on", 100);
}
