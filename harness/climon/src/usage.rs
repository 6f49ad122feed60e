//! C38: the command line.
use model::generate::Opts;
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use serde_json::json;

use crate::cli::*;
use crate::cmds::*;
use crate::delivery::{changes, snapshot};

// ---------------------------------------------------------------- options

/// What an option takes.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Takes {
    Nothing,
    Text,
    /// A number without sign.
    Number,
    /// 0 to 99.
    Score,
    Path,
    Choice(&'static [&'static str]),
}
use Takes::*;

#[derive(Clone, Copy, Debug)]
struct O {
    long: &'static str,
    short: Option<char>,
    takes: Takes,
    many: bool,
}

const fn o(long: &'static str, short: char, takes: Takes) -> O {
    O { long, short: if short == ' ' { None } else { Some(short) }, takes, many: false }
}

const fn many(long: &'static str, short: char) -> O {
    O { long, short: if short == ' ' { None } else { Some(short) }, takes: Text, many: true }
}

const FORMS: Takes = Choice(&["nfc", "nfd", "nfkc", "nfkd"]);
const FORMATS: Takes = Choice(&["binary", "import", "json", "plain", "plus", "xml"]);

const SELECTION: &[O] = &[
    o("skip-invalid", 's', Nothing),
    o("limit", 'l', Number),
    o("ignore-case", 'i', Nothing),
    o("strsim-threshold", ' ', Score),
    many("allow-list", 'A'),
    many("deny-list", 'D'),
    o("filter-set-column", ' ', Text),
    o("filter-set-source", ' ', Path),
    o("where", ' ', Text),
    many("and", ' '),
    many("or", ' '),
    many("not", ' '),
];

const OUTPUT: &[O] = &[o("progress", 'p', Nothing), o("output", 'o', Text)];
const TABLE: &[O] = &[
    o("squash", ' ', Nothing),
    o("merge", ' ', Nothing),
    o("separator", ' ', Text),
    o("unique", 'u', Nothing),
    o("header", 'H', Text),
    o("tsv", 't', Nothing),
    o("translit", ' ', FORMS),
];

/// The options as `--help` lists them (without help itself).
fn options(name: &str) -> Vec<O> {
    let own: &[O] = match name {
        "check" => &[many("rule-set", 'R'), many("rule", 'r'), o("tags", 't', Text)],
        "completions" => &[],
        "concat" => &[
            o("skip-invalid", 's', Nothing),
            o("tee", ' ', Text),
            o("unique", 'u', Nothing),
            o("unique-strategy", ' ', Choice(&["idn", "hash"])),
            o("append", ' ', Nothing),
        ],
        "config" => &[o("get", ' ', Nothing), o("unset", ' ', Nothing), o("set", ' ', Nothing)],
        "convert" => &[o("skip-invalid", 's', Nothing), o("from", 'f', FORMATS), o("to", 't', FORMATS)],
        "count" => &[
            o("append", ' ', Nothing),
            o("records", 'r', Nothing),
            o("fields", ' ', Nothing),
            o("subfields", ' ', Nothing),
            o("csv", ' ', Nothing),
            o("tsv", ' ', Nothing),
            o("no-header", ' ', Nothing),
        ],
        "describe" => {
            &[o("keep", 'k', Text), o("discard", 'd', Text), o("csv", 'c', Nothing), o("tsv", 't', Nothing)]
        }
        "explode" => &[o("gzip", 'g', Nothing), o("keep", 'k', Text), o("discard", 'd', Text)],
        "filter" => &[
            o("invert-match", 'v', Nothing),
            o("keep", 'k', Text),
            o("discard", 'd', Text),
            o("file", 'F', Text),
            o("gzip", 'g', Nothing),
            o("append", ' ', Nothing),
            o("tee", ' ', Text),
        ],
        "frequency" => &[o("reverse", 'r', Nothing), o("", 'n', Number), o("threshold", ' ', Number)],
        "hash" => &[o("header", 'H', Text), o("tsv", 't', Nothing)],
        "invalid" => &[],
        "partition" => &[
            o("gzip", 'g', Nothing),
            o("progress", 'p', Nothing),
            o("outdir", 'o', Text),
            o("template", 't', Text),
        ],
        "print" => &[o("translit", ' ', FORMS)],
        "sample" => &[o("gzip", 'g', Nothing), o("seed", ' ', Number)],
        "select" => &[
            o("no-empty-columns", ' ', Nothing),
            o("quote-style", ' ', Choice(&["always", "necessary", "non-numeric", "never"])),
            o("append", ' ', Nothing),
        ],
        "slice" => &[
            o("start", ' ', Number),
            o("end", ' ', Number),
            o("length", ' ', Number),
            o("gzip", 'g', Nothing),
            o("append", 'a', Nothing),
        ],
        "split" => &[
            o("gzip", 'g', Nothing),
            o("progress", 'p', Nothing),
            o("outdir", 'o', Text),
            o("template", ' ', Text),
        ],
        _ => &[],
    };
    let mut v = own.to_vec();
    if matches!(name, "select" | "frequency") {
        v.extend(TABLE);
    }
    if SELECTING.contains(&name) {
        v.extend(SELECTION.iter().filter(|x| name != "filter" || x.long != "where"));
    }
    match name {
        "config" | "partition" | "split" => {}
        "completions" => v.push(OUTPUT[1]),
        _ => v.extend(OUTPUT),
    }
    v
}

/// Options that exclude each other.
fn exclusions(name: &str) -> Vec<(&'static str, &'static str)> {
    let mut v: Vec<(&str, &str)> = match name {
        "config" => vec![("get", "set"), ("get", "unset"), ("set", "unset")],
        "count" => {
            let mut v = vec![("csv", "tsv"), ("fields", "records")];
            for a in ["records", "fields", "subfields"] {
                for b in ["fields", "subfields", "csv", "tsv", "no-header"] {
                    if a < b && (a, b) != ("fields", "fields") || matches!(b, "csv" | "no-header") {
                        v.push((a, b));
                    }
                }
            }
            v
        }
        "describe" => vec![("csv", "tsv")],
        "filter" => vec![("append", "gzip"), ("tee", "output")],
        "frequency" | "select" => vec![("squash", "merge")],
        "slice" => vec![("end", "length"), ("append", "gzip")],
        _ => vec![],
    };
    if SELECTING.contains(&name) {
        v.extend([("and", "or"), ("or", "not")]);
    }
    v.retain(|(a, b)| a != b);
    v
}

/// Options that need another one.
fn needs(name: &str) -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    if !matches!(name, "config" | "completions" | "partition" | "split") {
        v.push(("progress", "output"));
    }
    if SELECTING.contains(&name) && name != "filter" {
        v.extend([("and", "where"), ("or", "where"), ("not", "where")]);
    }
    match name {
        "describe" => v.extend([("csv", "output"), ("tsv", "output")]),
        "concat" => v.push(("unique-strategy", "unique")),
        _ => {}
    }
    v
}

// ---------------------------------------------------------------- spelling

#[derive(Clone, Debug)]
struct Given {
    opt: O,
    value: Option<String>,
}

fn given(opt: O, value: &str) -> Given {
    Given { opt, value: (opt.takes != Nothing).then(|| value.to_string()) }
}

/// Reads options in the spellings that the other modules use.
fn tokens(table: &[O], args: &[String]) -> Vec<Given> {
    let mut v = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let (opt, rest) = if let Some(l) = a.strip_prefix("--") {
            (table.iter().find(|x| x.long == l), None)
        } else {
            let mut cs = a.chars().skip(1);
            let s = cs.next();
            (table.iter().find(|x| x.short.is_some() && x.short == s), Some(cs.collect::<String>()))
        };
        let opt = *opt.unwrap_or_else(|| panic!("option {a}"));
        let value = match (opt.takes, rest) {
            (Nothing, _) => None,
            (_, Some(x)) if !x.is_empty() => Some(x),
            _ => Some(it.next().expect("a value").clone()),
        };
        v.push(Given { opt, value });
    }
    v
}

/// One spelling everybody knows.
fn plain(gs: &[Given]) -> Vec<String> {
    let mut v = vec![];
    for g in gs {
        v.push(if g.opt.long.is_empty() { format!("-{}", g.opt.short.unwrap()) } else { format!("--{}", g.opt.long) });
        v.extend(g.value.clone());
    }
    v
}

/// Some other spelling, among the other arguments.
fn spelled(r: &mut Rng, gs: &[Given], pos: &[String], kinds: &mut String) -> Vec<String> {
    // the order matters among the same options only
    let mut order: Vec<usize> = (0..gs.len()).collect();
    r.shuffle(&mut order);
    let mut sorted = order.clone();
    for (i, x) in order.iter().enumerate() {
        // the n-th place of an option is for its n-th value
        let same: Vec<usize> = (0..gs.len()).filter(|k| gs[*k].opt.long == gs[*x].opt.long).collect();
        let nth = order[..i].iter().filter(|k| gs[**k].opt.long == gs[*x].opt.long).count();
        sorted[i] = same[nth];
    }
    let mut words: Vec<Vec<String>> = vec![];
    let mut cluster: Option<String> = None;
    for i in sorted {
        let g = &gs[i];
        let short = g.opt.short.filter(|_| g.opt.long.is_empty() || r.bool());
        match (short, &g.value) {
            (Some(s), None) => {
                if let Some(c) = cluster.as_mut().filter(|_| r.chance(2, 3)) {
                    c.push(s);
                    kinds.push('c');
                } else {
                    if let Some(c) = cluster.take() {
                        words.push(vec![c]);
                    }
                    cluster = Some(format!("-{s}"));
                    kinds.push('f');
                }
            }
            (Some(s), Some(v)) => {
                let head = match cluster.take() {
                    Some(c) if r.bool() => {
                        kinds.push('C');
                        format!("{c}{s}")
                    }
                    c => {
                        words.extend(c.map(|c| vec![c]));
                        format!("-{s}")
                    }
                };
                let apart = v.starts_with('-');
                match r.below(3) {
                    0 if !v.is_empty() && !v.starts_with('=') => {
                        kinds.push('a');
                        words.push(vec![format!("{head}{v}")]);
                    }
                    1 if !apart => {
                        kinds.push('s');
                        words.push(vec![head, v.clone()]);
                    }
                    _ => {
                        kinds.push('e');
                        words.push(vec![format!("{head}={v}")]);
                    }
                }
            }
            (None, None) => {
                kinds.push('l');
                words.push(vec![format!("--{}", g.opt.long)]);
            }
            (None, Some(v)) => {
                if v.starts_with('-') || r.bool() {
                    kinds.push('E');
                    words.push(vec![format!("--{}={v}", g.opt.long)]);
                } else {
                    kinds.push('S');
                    words.push(vec![format!("--{}", g.opt.long), v.clone()]);
                }
            }
        }
    }
    words.extend(cluster.map(|c| vec![c]));
    // other arguments anywhere between
    let mut out = vec![];
    let behind = r.chance(1, 4);
    let mut p = pos.iter().peekable();
    for w in words {
        while !behind && p.peek().is_some() && r.chance(1, 4) {
            out.extend(p.next().cloned());
            kinds.push('p');
        }
        out.extend(w);
    }
    if behind || p.peek().is_some() && r.chance(1, 4) {
        kinds.push('-');
        out.push("--".into());
    }
    out.extend(p.cloned());
    out
}

const NAMES: &[&str] = &[
    "cat", "check", "completions", "concat", "config", "convert", "count", "describe", "explode", "filter", "freq",
    "frequency", "hash", "help", "invalid", "partition", "print", "sample", "select", "slice", "split",
];

/// Some way to name a command.
fn abbreviated(r: &mut Rng, name: &str) -> String {
    let mut all = vec![name.to_string()];
    match name {
        "concat" => all.extend(["cat".to_string(), "ca".to_string()]),
        "frequency" => all.push("freq".to_string()),
        _ => {}
    }
    for n in 1..name.len() {
        let p = &name[..n];
        if NAMES.iter().all(|x| *x == name || !x.starts_with(p) || (name, *x) == ("frequency", "freq")) {
            all.push(p.to_string());
        }
    }
    if r.chance(1, 3) { name.to_string() } else { r.pick(&all).clone() }
}

/// Options that change nothing.
fn defaults(r: &mut Rng, name: &str, gs: &[Given], unique: bool) -> Vec<Given> {
    let table = options(name);
    let mut v: Vec<(&str, &str)> = vec![];
    if SELECTING.contains(&name) {
        v.extend([("limit", "0"), ("strsim-threshold", "75")]);
    }
    match name {
        "concat" if unique => v.push(("unique-strategy", "idn")),
        "convert" => v.push(("from", "plus")),
        "frequency" => v.extend([("separator", "|"), ("threshold", "0"), ("", "0")]),
        "select" => v.extend([("separator", "|"), ("quote-style", "necessary")]),
        "hash" => v.push(("header", "ppn,hash")),
        "slice" => v.extend([("start", "0"), ("length", "0")]),
        "partition" => v.push(("template", "{}.dat")),
        "split" => v.push(("template", "{}.dat")),
        _ => {}
    }
    let has = |l: &str| gs.iter().any(|g| g.opt.long == l);
    v.retain(|(l, _)| {
        !has(l) && !(*l == "length" && has("end")) && !(*l == "template" && has("gzip")) && r.chance(1, 3)
    });
    v.into_iter().map(|(l, x)| given(*table.iter().find(|t| t.long == l).expect("an option"), x)).collect()
}

struct Base {
    name: &'static str,
    given: Vec<Given>,
    cmd: Cmd,
    target: Target,
    input: Input,
}

/// A use of a command that is fine.
fn base(r: &mut Rng, w: &Work, name: &'static str, prefix: &str) -> Base {
    let mut ls = stream(r, 12, &Opts { utf8: true, max_fields: 5, ..Default::default() });
    let skip = name != "invalid" && r.chance(1, 3);
    if skip || name == "invalid" {
        spoil(r, &mut ls, 2);
    }
    let recs: Vec<Rec> = ls.iter().filter_map(|l| Rec::decode(l)).collect();
    let recs: Vec<&Rec> = recs.iter().collect();
    let mut sel = if SELECTING.contains(&name) && r.chance(2, 3) {
        Sel::random(r, &recs, SelKind { lists: true, limit: true })
    } else {
        Sel::all()
    };
    sel.skip = skip;
    let mut cmd = if name == "invalid" { Cmd::none(name) } else { Cmd::random(r, w, name, &recs, sel.mopts()) };
    let so = if SELECTING.contains(&name) {
        cmd.selection(r, w, &mut sel)
    } else if skip {
        words(&["-s"])
    } else {
        vec![]
    };
    let target = Target::random(r, w, &cmd, prefix);
    let input = input(r, w, ls);
    let mut a = cmd.opts.clone();
    a.extend(so);
    a.extend(target.args.iter().cloned());
    Base { name, given: tokens(&options(name), &a), cmd, target, input }
}

const COMMANDS: &[&str] = &[
    "check", "concat", "convert", "count", "describe", "explode", "filter", "frequency", "hash", "invalid",
    "partition", "print", "sample", "select", "slice", "split",
];

fn same_meaning(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    let name = COMMANDS[c.idx as usize % COMMANDS.len()];
    let b = base(&mut c.r, &w, name, "o");
    let mut pos = b.cmd.pos.clone();
    pos.extend_from_slice(&b.input.args);
    let mut first = vec![name.to_string()];
    first.extend(plain(&b.given));
    first.extend(pos.iter().cloned());
    let want = w.run_with(&first, &b.input.setup())?;
    let info0 = || format!("{}{}{}", cmdline(&first), b.cmd.note, b.input.describe());
    let ok = |o: &Out| o.code == 0 || name == "check" && o.code == 1;
    if !ok(&want) {
        // (values that cannot be used in file names or texts, ...)
        if want.err.contains("--help") || want.err.contains("Usage") {
            return Err(format!("the options are not accepted: {}; {}", want.err.trim(), info0()));
        }
        c.count("runs that fail", 1);
        return Ok(());
    }
    let x = b.target.outputs(&w, &want).map_err(|e| format!("{e}; {}", info0()))?;
    for p in b.target.paths() {
        let p = w.dir.join(p);
        let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
    }
    let mut gs = b.given.clone();
    let unique = gs.iter().any(|g| g.opt.long == "unique");
    let more = defaults(&mut c.r, name, &gs, unique);
    let extra = more.len();
    gs.extend(more);
    let table = options(name);
    let has_output = b.target.kind.starts_with("file") || b.target.dir.is_some();
    let progress = table.iter().find(|x| x.long == "progress");
    if let Some(p) = progress
        && has_output
        && c.r.chance(1, 3)
    {
        gs.push(given(*p, ""));
    }
    if b.input.args.is_empty() && c.r.chance(1, 3) {
        pos.push("-".into());
    }
    let mut kinds = String::new();
    let mut a = vec![];
    if c.r.chance(1, 4) {
        // a configuration that says nothing
        let f = w.write("conf.toml", b"skip-invalid = false\n");
        match c.r.below(4) {
            0 => a.extend(["-c".into(), f]),
            1 => a.extend(["--config".into(), f]),
            2 => a.push(format!("-c{f}")),
            _ => a.push(format!("--config={f}")),
        }
        kinds.push('g');
    }
    let called = abbreviated(&mut c.r, name);
    a.push(called.clone());
    let rest = spelled(&mut c.r, &gs, &pos, &mut kinds);
    a.extend(rest);
    let got = w.run_with(&a, &b.input.setup())?;
    c.sig(&format!("{called}/{kinds}/{extra}"));
    let info = || format!("{}\n  compared with {}", cmdline(&a), info0());
    if got.code != want.code {
        return Err(format!("exit status {} instead of {}: {}; {}", got.code, want.code, got.err.trim(), info()));
    }
    let g = b.target.outputs(&w, &got).map_err(|e| format!("{e}; {}", info()))?;
    same_outputs(&g, &x, info)?;
    c.count("spellings with the same outputs", 1);
    c.count("options in some other spelling", gs.len() as u64);
    c.count("default values given", extra as u64);
    c.sample(|| json!({"command": cmdline(&a), "plain": cmdline(&first)}));
    Ok(())
}

// ---------------------------------------------------------------- rejection

const BAD_NUMBERS: &[&str] = &["-1", "x", "", "1.5", "1e3", "0x10", " 1", "1 ", "٣", "99999999999999999999999999"];

/// One way to make a command line wrong.
#[derive(Clone, Copy)]
enum Mistake {
    Unknown,
    /// An option of other commands.
    Foreign(&'static str),
    Twice(O),
    FlagValue(O),
    NoValue(O),
    BadValue(O),
    Both(&'static str, &'static str),
    Without(&'static str, &'static str),
    Missing,
    BadArgument,
}
use Mistake::*;

fn mistakes() -> Vec<(&'static str, Mistake)> {
    let mut v = vec![];
    let mut all: Vec<&'static str> = COMMANDS.iter().flat_map(|n| options(n)).map(|x| x.long).collect();
    all.sort();
    all.dedup();
    for &n in COMMANDS {
        let table = options(n);
        v.extend([(n, Unknown), (n, Unknown), (n, Unknown)]);
        v.extend(all.iter().filter(|l| !table.iter().any(|x| x.long == **l)).map(|l| (n, Foreign(l))));
        for x in &table {
            if !x.many {
                v.push((n, Twice(*x)));
            }
            match x.takes {
                Nothing => v.push((n, FlagValue(*x))),
                Text => v.push((n, NoValue(*x))),
                _ => v.extend([(n, NoValue(*x)), (n, BadValue(*x)), (n, BadValue(*x)), (n, BadValue(*x))]),
            }
        }
        for (x, y) in exclusions(n) {
            v.extend([(n, Both(x, y)), (n, Both(y, x))]);
        }
        for (x, y) in needs(n) {
            v.extend([(n, Without(x, y)), (n, Without(x, y))]);
        }
        match n {
            "explode" | "partition" | "sample" | "split" => {
                v.extend([(n, Missing), (n, BadArgument), (n, BadArgument), (n, BadArgument), (n, BadArgument)])
            }
            "frequency" | "select" | "check" => v.push((n, Missing)),
            _ => {}
        }
    }
    v
}

/// Makes a command line wrong; says how.
fn spoilt(r: &mut Rng, w: &Work, b: &Base, m: Mistake, pos: &mut Vec<String>) -> (String, Vec<Given>, Vec<String>) {
    let table = options(b.name);
    let mut gs = b.given.clone();
    let find = |l: &str| *table.iter().find(|x| x.long == l).expect("an option");
    let has = |gs: &[Given], l: &str| gs.iter().any(|g| g.opt.long == l);
    let (ex, ns) = (exclusions(b.name), needs(b.name));
    // some value that is fine
    let fine = |r: &mut Rng, opt: O| match opt.takes {
        Nothing => given(opt, ""),
        Text if opt.long == "rule-set" => given(opt, &w.write("more.toml", b"")),
        Text if matches!(opt.long, "allow-list" | "deny-list") => given(opt, &w.write("more.csv", b"ppn\n1\n")),
        Text if matches!(opt.long, "output" | "outdir" | "tee") => given(opt, &w.path("unwanted")),
        Text => given(opt, r.pick(&["003@.0?", "012A", "x"])),
        Number | Score => given(opt, "7"),
        Path => given(opt, "003@.0"),
        Choice(l) => given(opt, r.pick::<&str>(l)),
    };
    // removes what does not go with an option, adds what it needs
    let room = |gs: &mut Vec<Given>, l: &str, but: &str| {
        gs.retain(|g| g.opt.long == but || !ex.iter().any(|(x, y)| (*x, *y) == (l, g.opt.long) || (*x, *y) == (g.opt.long, l)));
        for (_, y) in ns.iter().filter(|(x, y)| *x == l && *y != but) {
            if !has(gs, y) {
                gs.retain(|g| !ex.iter().any(|(a, c)| (*a, *c) == (*y, g.opt.long) || (*a, *c) == (g.opt.long, *y)));
                let v = if *y == "where" { "003@.0?".to_string() } else { w.path("unwanted") };
                gs.push(given(find(y), &v));
            }
        }
    };
    let how = match m {
        Unknown => {
            let x = *r.pick(&[
                "--no-such-option", "--Limit", "--lim", "--skip", "--out", "--skip_invalid", "--ignorecase",
                "--no-gzip", "-X", "-Z", "--filter-set", "--strsim", "--version-info", "-G", "---",
            ]);
            return (format!("unknown {x}"), gs, vec![x.to_string()]);
        }
        Foreign(l) => return (format!("foreign {l}"), gs, vec![if l.is_empty() { "-n".into() } else { format!("--{l}") }]),
        Twice(x) => {
            room(&mut gs, x.long, "");
            if !has(&gs, x.long) {
                let g = fine(r, x);
                gs.push(g);
            }
            let g = if r.bool() { gs.iter().find(|g| g.opt.long == x.long).unwrap().clone() } else { fine(r, x) };
            gs.push(g);
            format!("twice {}", x.long)
        }
        FlagValue(x) => {
            gs.retain(|g| g.opt.long != x.long);
            room(&mut gs, x.long, "");
            let v = r.pick(&["true", "1", "x", "", "false"]);
            return (format!("value for {}", x.long), gs, vec![format!("--{}={v}", x.long)]);
        }
        NoValue(x) => {
            gs.retain(|g| g.opt.long != x.long || x.many);
            room(&mut gs, x.long, "");
            let mut a = plain(&gs);
            a.append(pos);
            a.push(if x.long.is_empty() { "-n".into() } else { format!("--{}", x.long) });
            return (format!("no value for {}", x.long), vec![], a);
        }
        BadValue(x) => {
            gs.retain(|g| g.opt.long != x.long);
            room(&mut gs, x.long, "");
            let v = match x.takes {
                Score if r.bool() => r.pick(&["101", "255", "256", "331", "75%", "0.5", "65611"]).to_string(),
                Number | Score => r.pick(BAD_NUMBERS).to_string(),
                Path => r.pick(&["", "003@", "003@.", "03@.0", "003@.0 x", ".0", "003@.0 ==", "003@{0}}"]).to_string(),
                Choice(l) if r.bool() => {
                    let y: &str = r.pick::<&str>(l);
                    match r.below(3) {
                        0 => format!("{y}x"),
                        1 => y.to_uppercase(),
                        _ => y[..y.len() - 1].to_string(),
                    }
                }
                _ => r.pick(&["", "x", "none", "all", "nf", "jsonl", "sha"]).to_string(),
            };
            gs.push(given(x, &v));
            format!("{}={v}", x.long)
        }
        Both(x, y) => {
            gs.retain(|g| g.opt.long != x && g.opt.long != y);
            room(&mut gs, x, "");
            room(&mut gs, y, "");
            for l in [x, y] {
                let g = fine(r, find(l));
                gs.push(g);
            }
            format!("{x} with {y}")
        }
        Without(x, y) => {
            // (filter lets --tee stand for --output: see the known finding)
            gs.retain(|g| g.opt.long != y && g.opt.long != "tee" && !ns.contains(&(g.opt.long, y)));
            room(&mut gs, x, y);
            gs.retain(|g| g.opt.long != y);
            if !has(&gs, x) {
                let g = fine(r, find(x));
                gs.push(g);
            }
            format!("{x} without {y}")
        }
        Missing => {
            if b.name == "check" {
                gs.retain(|g| g.opt.long != "rule-set");
            } else {
                pos.clear();
            }
            "missing argument".to_string()
        }
        BadArgument => {
            pos[0] = match b.name {
                "explode" => {
                    r.pick(&["mainly", "MAIN", "", "0", "item", "loca", "m", "Local", "copies"]).to_string()
                }
                "partition" => r.pick(&["003@", "", "003@.0 x", "==", "03@.0", "003@{"]).to_string(),
                _ if r.bool() => r.pick(&["0", "4294967296", "00", "+", "4294967297"]).to_string(),
                _ => r.pick(&BAD_NUMBERS[1..]).to_string(),
            };
            format!("argument {}", pos[0])
        }
    };
    (how, gs, vec![])
}

fn rejected(c: &mut Case, w: &Work, a: &[String], how: &str, setup: &Setup) -> Verdict {
    let before = snapshot(w);
    let out = w.run_with(a, setup)?;
    let info = || format!("{how}: {}", cmdline(a));
    if out.code != 2 {
        return Err(format!("exit status {} instead of 2: {}; {}", out.code, out.err.trim(), info()));
    }
    if out.err.trim().is_empty() {
        return Err(format!("no message; {}", info()));
    }
    if !out.out.is_empty() {
        return Err(format!("{} bytes of output; {}", out.out.len(), info()));
    }
    let bad = changes(&before, &snapshot(w), |_, _| false);
    if !bad.is_empty() {
        return Err(format!("{}; {}", bad.join(", "), info()));
    }
    c.count("wrong command lines rejected", 1);
    c.sample(|| json!({"wrong": how, "command": cmdline(a), "message": out.err.lines().next()}));
    Ok(())
}

fn wrong(ctx: &Ctx, c: &mut Case, all: &[(&'static str, Mistake)]) -> Verdict {
    let w = Work::new(ctx, c);
    let (name, m) = all[c.idx as usize % all.len()];
    let b = base(&mut c.r, &w, name, "o");
    let mut pos = b.cmd.pos.clone();
    pos.extend_from_slice(&b.input.args);
    let (how, gs, more) = spoilt(&mut c.r, &w, &b, m, &mut pos);
    let mut a = vec![name.to_string()];
    if matches!(m, NoValue(_)) {
        a.extend(more);
    } else {
        // (after -- everything is an argument)
        let first = c.r.bool();
        if first {
            a.extend(more.iter().cloned());
        }
        let words = spelled(&mut c.r, &gs, &pos, &mut String::new());
        if !first && words.iter().any(|x| x == "--") {
            a.splice(1..1, more);
            a.extend(words);
        } else {
            a.extend(words);
            if !first {
                a.extend(more);
            }
        }
    }
    c.sig(&format!("{name}/{how}"));
    rejected(c, &w, &a, &how, &b.input.setup())
}

fn others(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    w.write("home/.config/pica/config.toml", b"skip-invalid = false\n");
    let r = &mut c.r;
    let (how, a): (&str, Vec<String>) = match r.below(8) {
        0 => ("nothing", vec![]),
        1 => {
            let x = *r.pick(&[
                "foo", "", "c", "co", "con", "s", "h", "f", "p", "Filter", "filters", "concatt", "catt", "FREQ",
                "sl ice", "select ", "d e", "--foo", "-x", "sp lit",
            ]);
            ("command name", words(&[x]))
        }
        2 => ("shell", words(&["completions", r.pick::<&str>(&["sh", "", "Bash", "csh", "bashh"])])),
        3 => ("no shell", words(&["completions"])),
        4 => ("no name", words(&["config"])),
        5 => {
            let x: &[&str] = r.pick::<&[&str]>(&[
                &["config", "--get", "skip-invalid", "true"],
                &["config", "--unset", "skip-invalid", "true"],
                &["config", "--set", "skip-invalid"],
                &["config", "--get", "--unset", "skip-invalid"],
                &["config", "--get", "--set", "skip-invalid", "true"],
                &["config", "--set", "--unset", "skip-invalid", "true"],
                &["config", "skip-invalid", "true", "false"],
                &["config", "--add", "skip-invalid"],
                &["config", "--get", "--get", "skip-invalid"],
                &["config", "--set=true", "skip-invalid", "true"],
            ]);
            ("config", words(x))
        }
        6 => ("no value", words(&[r.pick::<&str>(&["-c", "--config"])])),
        _ => {
            let f = w.path("home/.config/pica/config.toml");
            ("configuration twice", words(&["-c", &f, "--config", &f, "count"]))
        }
    };
    c.sig(&format!("{how}/{}", a.join(" ").replace(&w.path(""), "")));
    rejected(c, &w, &a, how, &Setup::default())
}

// ---------------------------------------------------------------- help

/// The options that a text of help lists at the beginning of lines.
fn listed(text: &str) -> Vec<String> {
    let mut v = vec![];
    for l in text.lines() {
        let t = l.trim_start();
        if t.starts_with('-') && l.len() - t.len() <= 6 {
            for x in t.split([' ', ',']) {
                if x.starts_with('-') {
                    v.push(x.trim_end_matches(',').to_string());
                } else if !x.is_empty() {
                    break;
                }
            }
        }
    }
    v.sort();
    v
}

fn help(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    let names: Vec<&str> = NAMES.iter().copied().filter(|n| !matches!(*n, "cat" | "freq" | "help")).collect();
    let k = c.idx as usize % (names.len() + 3);
    let before = snapshot(&w);
    let mut run = |a: &[&str]| -> Result<String, String> {
        let out = w.run(&words(a), b"")?;
        c.count("texts of help read", 1);
        if out.code != 0 || !out.err.is_empty() {
            return Err(format!("exit status {}: {}; {}", out.code, out.err.trim(), a.join(" ")));
        }
        String::from_utf8(out.out).map_err(|e| format!("{e}: {}", a.join(" ")))
    };
    let sig;
    if k < names.len() {
        let name = names[k];
        sig = name.to_string();
        let long = run(&[name, "--help"])?;
        let short = run(&[name, "-h"])?;
        let other = run(&["help", name])?;
        if other != long {
            return Err(format!("`help {name}` differs from `{name} --help`"));
        }
        let mut want: Vec<String> = vec!["--help".into(), "-h".into()];
        for x in options(name) {
            if !x.long.is_empty() {
                want.push(format!("--{}", x.long));
            }
            want.extend(x.short.map(|s| format!("-{s}")));
        }
        want.sort();
        for t in [&long, &short] {
            let got = listed(t);
            if got != want {
                return Err(format!("help of {name} lists {got:?} instead of {want:?}"));
            }
        }
        if !long.contains(&format!("Usage: pica {name}")) {
            return Err(format!("help of {name} has no usage"));
        }
    } else if k == names.len() {
        sig = "all".to_string();
        for a in [&["--help"][..], &["-h"], &["help"]] {
            let t = run(a)?;
            for n in &names {
                if !t.lines().any(|l| l.split_whitespace().next() == Some(n)) {
                    return Err(format!("{n} is missing in the help"));
                }
            }
            if listed(&t) != ["--config", "--help", "--version", "-V", "-c", "-h"] {
                return Err(format!("help lists {:?}", listed(&t)));
            }
        }
    } else if k == names.len() + 1 {
        sig = "version".to_string();
        let (a, b) = (run(&["--version"])?, run(&["-V"])?);
        let v = a.strip_prefix("pica ").map(str::trim_end).unwrap_or("");
        if a != b || v.split('.').count() < 3 || !v.starts_with(|c: char| c.is_ascii_digit()) {
            return Err(format!("version {a:?} {b:?}"));
        }
    } else {
        let shell = *c.r.pick(&["bash", "elvish", "fish", "powershell", "zsh"]);
        sig = shell.to_string();
        let a = words(&["completions", shell]);
        let out = w.run(&a, b"")?;
        let script = String::from_utf8_lossy(out.ok()?).to_string();
        for n in &names {
            if !script.contains(n) {
                return Err(format!("{shell}: {n} cannot be completed"));
            }
            for x in options(n) {
                if !script.contains(x.long) {
                    return Err(format!("{shell}: --{} cannot be completed", x.long));
                }
            }
        }
        let f = w.path("script");
        let out = w.run(&words(&["completions", "-o", &f, shell]), b"")?;
        if !out.ok()?.is_empty() || w.read("script")? != script.as_bytes() {
            return Err(format!("{shell}: the file differs from standard output"));
        }
        let _ = std::fs::remove_file(&f);
        c.count("completion scripts read", 1);
    }
    let bad = changes(&before, &snapshot(&w), |_, _| false);
    if !bad.is_empty() {
        return Err(bad.join(", "));
    }
    c.sig(&sig);
    Ok(())
}

pub fn c38(ctx: &mut Ctx) {
    ctx.rule(
        "same: a random use of one of 16 commands is run in the plain spelling (long options, separate values, \
         arguments last) and in some other: short options, values attached or after =, flags combined, any order, \
         between the arguments, before --, with default values given, with progress, the command abbreviated: the \
         outputs and the status must be equal. wrong and others: a use that is fine is made wrong in one way \
         (unknown, repeated, contradictory, missing or lacking options and arguments, values out of range or not \
         among the named): status 2, a message, no output, and the directory as before. help: the texts of help \
         and the completion scripts against the table of options. A situation is the command with the kinds of \
         spelling, or with what was wrong.",
    );
    ctx.run("same", 900, 30_000, |c| same_meaning(ctx, c));
    let all = mistakes();
    ctx.run("wrong", 900, 30_000, |c| wrong(ctx, c, &all));
    ctx.run("others", 80, 2_000, |c| others(ctx, c));
    ctx.run("progress", 1, 1, |c| {
        let w = Work::new(ctx, c);
        let (i, t) = (w.write("in.dat", b"003@ \x1f01\x1e\n"), w.path("tee.dat"));
        let out = w.run(&words(&["filter", "--progress", "--tee", &t, "003@?", &i]), b"")?;
        c.sig("progress");
        if out.code == 0 {
            ctx.finding("tee-progress", "filter accepts --progress with --tee instead of --output");
        }
        Ok(())
    });
    ctx.run("help", 84, 210, |c| help(ctx, c));
    ctx.require("spellings with the same outputs", 500);
    ctx.require("default values given", 200);
    ctx.require("wrong command lines rejected", 600);
    ctx.require("texts of help read", 60);
    ctx.require("completion scripts read", 3);
}
