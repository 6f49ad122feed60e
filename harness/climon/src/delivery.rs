//! C35: how input is delivered and progress shown; C36: what a run touches.
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::{PermissionsExt, symlink};

use model::generate::Opts;
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use serde_json::json;

use crate::cli::*;
use crate::cmds::*;
use crate::records::{bulk, lines};

/// Lays lines out over all kinds of sources.
fn layout(r: &mut Rng, w: &Work, ls: &[Vec<u8>], prefix: &str) -> (Vec<String>, Setup, String) {
    let n = match r.below(8) {
        0..=2 => 1,
        3 | 4 => 2,
        5 | 6 => r.range(3, 6),
        _ => r.range(7, 40),
    };
    let mut cuts: Vec<usize> = (1..n).map(|_| r.below(ls.len() + 1)).collect();
    cuts.sort();
    let stdin_at = if r.chance(1, 3) { r.below(n) } else { usize::MAX };
    let mut args = vec![];
    let mut setup = Setup { pipe: r.bool(), ..Default::default() };
    let mut kinds = String::new();
    let mut from = 0;
    for (i, to) in cuts.into_iter().chain([ls.len()]).enumerate() {
        let data = ls[from..to].concat();
        from = to;
        if i == stdin_at {
            setup.stdin = data;
            if n > 1 || r.bool() {
                args.push("-".into());
            }
            kinds.push('s');
            continue;
        }
        let name = match r.below(7) {
            6 => format!("{prefix}{i}.{}", r.pick(&["GZ", "gzip", "tgz", "gz~", "gz.1", "z"])),
            0 => format!("{prefix} {i} ä.dat"),
            1 => format!("{prefix}{i}"),
            2 => format!("sub{prefix}/x{i}.gz.dat"),
            3 => format!("{prefix}{i}.csv"),
            _ => format!("{prefix}{i}.dat"),
        };
        let (name, content, k) = match r.below(6) {
            0 => (format!("{name}.gz"), gzip(&data), 'g'),
            1 => (format!("{name}.gz"), gzip_members(r, &data), 'm'),
            _ => (name, data, 'p'),
        };
        kinds.push(k);
        let link = r.chance(1, 6);
        // what counts is the name that was given
        let name = match (link && r.bool(), k) {
            (true, 'p') => format!("{name}.gz"),
            (true, _) => name.trim_end_matches(".gz").to_string(),
            _ => name,
        };
        let mut p = w.write(&name, &content);
        if link {
            let l = format!("{prefix}link{i}{}", if k == 'p' { "" } else { ".gz" });
            if symlink(&p, w.dir.join(&l)).is_ok() {
                p = w.path(&l);
                kinds.push('l');
            }
        }
        if r.chance(1, 3) {
            // relative to the working directory
            p = p.strip_prefix(&w.path("")).unwrap_or(&p).to_string();
        }
        args.push(p);
    }
    kinds.truncate(8);
    (args, setup, kinds)
}

fn environment(r: &mut Rng, s: &mut Setup) -> String {
    let all: &[(&str, Option<&str>)] = &[
        ("LANG", Some("C")),
        ("LANG", Some("de_DE.UTF-8")),
        ("LANG", None),
        ("LC_ALL", Some("tr_TR.UTF-8")),
        ("LC_ALL", Some("POSIX")),
        ("TZ", Some("Asia/Kathmandu")),
        ("TZ", None),
        ("NO_COLOR", Some("1")),
        ("CLICOLOR_FORCE", Some("1")),
        ("TERM", Some("dumb")),
        ("COLUMNS", Some("20")),
        ("RUST_BACKTRACE", Some("1")),
        ("POLARS_MAX_THREADS", Some("1")),
        ("POLARS_MAX_THREADS", Some("7")),
        ("TMPDIR", Some("/nowhere")),
        ("SHELL", None),
        ("USER", Some("x y")),
    ];
    let mut names = vec![];
    for _ in 0..r.below(4) {
        let (k, v) = *r.pick(all);
        if s.tty && k == "TERM" {
            continue;
        }
        s.env.push((k.into(), v.map(str::to_string)));
        names.push(k);
    }
    if s.tty {
        s.env.push(("TERM".into(), Some("xterm".into())));
    }
    names.join(",")
}

/// The last count on the terminal: records and invalid lines.
fn shown(screen: &str) -> Option<(u64, u64)> {
    let end = screen.rfind(" invalid | ")?;
    let head = &screen[..end];
    let (before, invalid) = head.rsplit_once(" records, ")?;
    let digits: String = before.chars().rev().take_while(|c| c.is_ascii_digit() || *c == ',').collect();
    let n: String = digits.chars().rev().filter(char::is_ascii_digit).collect();
    Some((n.parse().ok()?, invalid.replace(',', "").parse().ok()?))
}

const ALL: &[&str] = &[
    "check", "concat", "convert", "count", "describe", "explode", "filter", "frequency", "hash", "invalid",
    "partition", "print", "sample", "select", "slice", "split",
];

fn deliver(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    let name = ALL[c.idx as usize % ALL.len()];
    let large = c.r.chance(1, 12) && !matches!(name, "describe" | "check");
    let mut ls = if large {
        bulk(&mut c.r)
    } else if c.r.chance(1, 6) {
        lines(&mut c.r, 20)
    } else {
        stream(&mut c.r, 20, &Opts { utf8: true, max_fields: 5, ..Default::default() })
    };
    let bad = if c.r.chance(1, 2) { c.r.range(1, 5) } else { 0 };
    spoil(&mut c.r, &mut ls, bad);
    let recs: Vec<Rec> = ls.iter().filter_map(|l| Rec::decode(l)).collect();
    let recs: Vec<&Rec> = recs.iter().collect();
    let few: Vec<&Rec> = recs.iter().copied().take(30).collect();
    let bad = ls.len() - recs.len();
    let mut sel = if SELECTING.contains(&name) && c.r.bool() && !large {
        Sel::random(&mut c.r, &few, SelKind { lists: true, limit: true })
    } else {
        Sel::all()
    };
    // mostly no failure
    sel.skip = name != "invalid" && (bad > 0 && c.r.chance(9, 10) || c.r.chance(1, 6));
    let mut cmd = if name == "invalid" {
        Cmd::none("invalid")
    } else {
        Cmd::random(&mut c.r, &w, name, &few, sel.mopts())
    };
    if large && name == "partition" {
        cmd.pos = words(&["002@.0"]);
    }
    if large && name == "split" {
        cmd.pos = vec![(recs.len() / 3 + 1).to_string()];
    }
    let mut so = if SELECTING.contains(&name) {
        cmd.selection(&mut c.r, &w, &mut sel)
    } else if sel.skip {
        words(&["-s"])
    } else {
        vec![]
    };
    let seed = c.r.u64();
    let t1 = Target::random(&mut Rng::new(seed), &w, &cmd, "a");
    let t2 = Target::random(&mut Rng::new(seed), &w, &cmd, "b");
    let first = input_as(&mut c.r, &w, ls.clone(), "one");
    let (args, mut setup, kinds) = layout(&mut c.r, &w, &ls, "two");
    let a1 = cmd.line(&mut c.r, &so, &t1, &first.args);
    let want = w.run_with(&a1, &first.setup())?;
    let progress = (t2.kind.starts_with("file") || t2.dir.is_some()) && c.r.chance(2, 3);
    if progress {
        so.push(c.r.pick(&["-p", "--progress"]).to_string());
    }
    setup.tty = c.r.chance(2, 3);
    let env = environment(&mut c.r, &mut setup);
    let mut a2 = cmd.line(&mut c.r, &so, &t2, &args);
    if c.r.chance(1, 3) {
        for a in &mut a2 {
            if let Some(rest) = a.strip_prefix(&w.path("")) {
                *a = rest.to_string();
            }
        }
    }
    let got = w.run_with(&a2, &setup)?;
    c.sig(&format!("{name}/{}/{kinds}/{}/{progress}{}/{env}", t2.kind, first.kind, setup.tty));
    let info = || {
        format!(
            "{} ({kinds}; {env})\n  compared with {}{}{}",
            cmdline(&a2),
            cmdline(&a1),
            cmd.note,
            first.describe()
        )
    };
    if got.code != want.code {
        return Err(format!(
            "exit status {} ({}) but {} ({}); {}",
            got.code, got.err.trim(), want.code, want.err.trim(), info()
        ));
    }
    if want.code != 0 && !(name == "check" && want.code == 1) {
        c.count("runs that fail both ways", 1);
        return Ok(());
    }
    let x = t1.outputs(&w, &want).map_err(|e| format!("{e}; {}", info()))?;
    let g = t2.outputs(&w, &got).map_err(|e| format!("{e}; {}", info()))?;
    same_outputs(&g, &x, info)?;
    c.count("outputs compared", x.len() as u64);
    c.count("bytes compared", x.values().map(|d| d.len() as u64).sum());
    if !progress && !got.err.is_empty() && want.err.is_empty() {
        return Err(format!("messages of only one run: {}; {}", got.err.trim(), info()));
    }
    if progress && !setup.tty && !got.err.is_empty() && want.err.is_empty() {
        return Err(format!("progress without a terminal: {}; {}", got.err.trim(), info()));
    }
    let whole = sel.limit == 0
        && !(name == "slice" && cmd.opts.iter().any(|o| o == "--length"))
        && !(name == "concat" && !cmd.opts.is_empty());
    if progress && setup.tty {
        let n = (recs.len() as u64, bad as u64);
        let s = shown(&got.err);
        match s {
            None if ls.is_empty() || !whole => {}
            Some(s) if s == n => c.count("final counts on a terminal", 1),
            // these stop early or count only what they use
            Some(s) if !whole && s.0 <= n.0 && s.1 <= n.1 => c.count("final counts of runs that stop", 1),
            s => {
                return Err(format!(
                    "the terminal shows {s:?} records and invalid lines instead of {n:?}: {:?}; {}",
                    got.err, info()
                ));
            }
        }
    }
    c.sample(|| json!({"command": cmdline(&a2), "layout": kinds, "records": recs.len()}));
    Ok(())
}

pub fn c35(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs a random use of one of 16 commands twice on the same lines: once laid out over files \
         as usual, once over one to forty sources of all kinds (plain, compressed in one or several \
         members, links, relative and unusual names, standard input as file or pipe in pieces, empty \
         parts), with other variables in the environment, the output options in another place, mostly \
         with -p, and often with a terminal as standard error. Outputs and status must be the same, and \
         the last count on the terminal must be the number of records and of invalid lines. A situation \
         is the command with its output, the kinds of sources, and what else was varied.",
    );
    ctx.run("delivery", 900, 80_000, |c| deliver(ctx, c));
    ctx.require("outputs compared", 500);
    ctx.require("final counts on a terminal", 50);
}

// ---------------------------------------------------------------- C36

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    Dir(u32),
    File(u32, Vec<u8>),
    Link(String),
}

/// Everything in the scratch directory but the harness's own files.
pub fn snapshot(w: &Work) -> BTreeMap<String, Node> {
    fn walk(dir: &std::path::Path, base: &std::path::Path, out: &mut BTreeMap<String, Node>) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let name = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if [".in", ".out", ".err"].iter().any(|n| name.starts_with(n)) {
                continue;
            }
            let Ok(m) = fs::symlink_metadata(&p) else { continue };
            let mode = m.permissions().mode() & 0o7777;
            if m.is_symlink() {
                let t = fs::read_link(&p).map(|t| t.to_string_lossy().into_owned()).unwrap_or_default();
                out.insert(name, Node::Link(t));
            } else if m.is_dir() {
                out.insert(name, Node::Dir(mode));
                walk(&p, base, out);
            } else {
                out.insert(name, Node::File(mode, fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(&w.dir, &w.dir, &mut out);
    out
}

/// The names that differ and may not.
pub fn changes(
    before: &BTreeMap<String, Node>,
    after: &BTreeMap<String, Node>,
    allowed: impl Fn(&str, bool) -> bool,
) -> Vec<String> {
    let mut bad = vec![];
    for (k, n) in before {
        match after.get(k) {
            None => bad.push(format!("{k} is gone")),
            Some(m) if m != n && !allowed(k, true) => bad.push(format!("{k} was changed")),
            _ => {}
        }
    }
    for k in after.keys() {
        if !before.contains_key(k) && !allowed(k, false) {
            bad.push(format!("{k} was made"));
        }
    }
    bad
}

/// Ways to make a command fail.
fn break_it(r: &mut Rng, args: &mut Vec<String>, w: &Work) -> &'static str {
    match r.below(6) {
        0 => {
            args.push(w.path("missing.dat"));
            "a missing input"
        }
        1 => {
            args.push(w.write("broken.dat.gz", b"\x1f\x8b no gzip"));
            "a broken input"
        }
        2 => {
            args.push(w.write("broken.dat", b"003@ \x1f0x\x1e\nno record\n"));
            "an invalid line"
        }
        3 => {
            args.push("--where".into());
            args.push("003@.0 == ".into());
            "a broken expression"
        }
        4 => {
            args.push("-A".into());
            args.push(w.path("missing.csv"));
            "a missing list"
        }
        _ => {
            args.push("--no-such-option".into());
            "an unknown option"
        }
    }
}

fn touch(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    let name = ALL[c.idx as usize % ALL.len()];
    let mut ls = stream(&mut c.r, 12, &Opts { utf8: true, max_fields: 4, ..Default::default() });
    let bad = if c.r.chance(1, 4) { c.r.range(1, 3) } else { 0 };
    spoil(&mut c.r, &mut ls, bad);
    let recs: Vec<Rec> = ls.iter().filter_map(|l| Rec::decode(l)).collect();
    let recs: Vec<&Rec> = recs.iter().collect();
    let mut sel = if SELECTING.contains(&name) && c.r.bool() {
        Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true })
    } else {
        Sel::all()
    };
    sel.skip = name != "invalid" && c.r.chance(3, 4);
    let mut cmd =
        if name == "invalid" { Cmd::none("invalid") } else { Cmd::random(&mut c.r, &w, name, &recs, sel.mopts()) };
    let so = if SELECTING.contains(&name) { cmd.selection(&mut c.r, &w, &mut sel) } else { vec![] };
    let t = Target::random(&mut c.r, &w, &cmd, "o");
    let inp = input(&mut c.r, &w, ls.clone());
    // what lies around
    for d in ["home/.config/pica", "tmp", "ofdir", "odir2"] {
        fs::create_dir_all(w.dir.join(d)).unwrap();
    }
    for f in [
        "0.dat", "out.dat", "oout", "oout.dat.bak", "oout.dat~", "oout.tmp", "tmp/x", "odir2/0.dat", "pica.log",
        "null.dat", "home/.picarc", "home/.config/pica/other.toml",
    ] {
        if c.r.bool() {
            w.write(f, format!("{f} is precious").as_bytes());
        }
    }
    let config = c.r.chance(1, 3);
    if config {
        w.write("home/.config/pica/config.toml", b"# mine\nskip-invalid = true\n");
    }
    // outputs that are there already
    let append = t.args.iter().any(|a| a == "--append");
    let old = b"003@ \x1f0old\x1e\n".to_vec();
    let mut there = vec![];
    for (f, gz) in &t.files {
        if c.r.bool() {
            let data = match (append, gz) {
                (true, true) => gzip(&old),
                (true, false) => old.clone(),
                _ => vec![b'x'; c.r.range(1, 40_000)],
            };
            w.write(f, &data);
            let _ = fs::set_permissions(w.dir.join(f), fs::Permissions::from_mode(0o640));
            there.push(f.clone());
        }
    }
    if let Some(d) = &t.dir
        && c.r.bool()
    {
        w.write(&format!("{d}/notes.txt"), b"precious");
        // names of the kind the commands use themselves
        for f in ["precious.dat", "99999.dat", "99998.dat.gz", "p_precious.dat", "s99999.dat", "precious/x.dat.gz"] {
            if c.r.bool() {
                w.write(&format!("{d}/{f}"), b"precious");
            }
        }
        w.write(&format!("{d}/deep/er.dat"), b"precious");
    }
    let mut args = cmd.line(&mut c.r, &so, &t, &inp.args);
    let broken = if c.r.chance(1, 3) { break_it(&mut c.r, &mut args, &w) } else { "" };
    let mut setup = inp.setup();
    setup.env.push(("TMPDIR".into(), Some(w.path("tmp"))));
    let before = snapshot(&w);
    let out = w.run_with(&args, &setup)?;
    let after = snapshot(&w);
    let info = || format!("{}{}{}", cmdline(&args), cmd.note, inp.describe());
    let dirs = t.dir.iter().map(|d| format!("{d}/")).collect::<Vec<_>>();
    let bad = changes(&before, &after, |k, was| {
        if t.files.iter().any(|(f, _)| f == k) {
            return true;
        }
        if t.dir.as_deref() == Some(k) {
            return true;
        }
        // new files in the directory; those that were there are not the command's
        dirs.iter().any(|d| k.starts_with(d)) && !was
    });
    if !bad.is_empty() {
        return Err(format!("exit status {}: {}; {}", out.code, bad.join(", "), info()));
    }
    c.count("files and directories watched", before.len() as u64);
    if out.crashed() {
        return Err(format!("crashed: {}; {}", out.err, info()));
    }
    let ok = out.code == 0 || name == "check" && out.code == 1;
    c.sig(&format!("{name}/{}/{broken}/{ok}/{append}{}{config}", t.kind, there.len()));
    if !ok {
        c.count("failing runs", 1);
        return Ok(());
    }
    c.count("successful runs", 1);
    for f in &there {
        if let (Some(Node::File(m, _)), Some(Node::File(n, _))) = (before.get(f), after.get(f))
            && m != n
        {
            return Err(format!("the permissions of {f} were changed from {m:o} to {n:o}; {}", info()));
        }
    }
    if t.dir.is_some() {
        return Ok(());
    }
    // the same as with no output there
    let got = t.outputs(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
    for p in t.paths() {
        let p = w.dir.join(p);
        if p.is_dir() {
            let _ = fs::remove_dir_all(&p);
        } else {
            let _ = fs::remove_file(&p);
        }
    }
    let out = w.run_with(&args, &setup)?;
    let mut want = t.outputs(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
    if append {
        for (i, (f, _)) in t.files.iter().enumerate() {
            if there.contains(f) {
                let w = want.get_mut(&format!("file {i}")).unwrap();
                w.splice(0..0, old.iter().copied());
            }
        }
    }
    same_outputs(&got, &want, || format!("with and without the output being there; {}", info()))?;
    c.count("outputs replaced or extended", there.len() as u64);
    c.sample(|| json!({"command": cmdline(&args), "watched": before.len(), "there": there}));
    Ok(())
}

/// Several runs at the same time.
fn together(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    let mut ls = stream(&mut c.r, 12, &Opts { utf8: true, max_fields: 4, ..Default::default() });
    if c.r.chance(1, 4) {
        for i in 0..c.r.range(500, 3000) {
            ls.push(format!("003@ \x1f0{i}\x1e012A \x1fa{}\x1e\n", i % 7).into_bytes());
        }
    }
    let inp = input(&mut c.r, &w, ls);
    let recs = inp.recs();
    let few: Vec<&Rec> = recs.iter().copied().take(12).collect();
    let n = c.r.range(2, 5);
    let same = c.r.bool();
    let one = *c.r.pick(ALL);
    struct Job {
        cmd: Cmd,
        solo: Target,
        both: Target,
        line: u64,
        so: Vec<String>,
    }
    let mut jobs: Vec<Job> = vec![];
    for i in 0..n {
        let name = if same { one } else { *c.r.pick(ALL) };
        let mut sel = Sel::all();
        let (mut cmd, so) = if same && i > 0 {
            (jobs[0].cmd.clone(), jobs[0].so.clone())
        } else if name == "invalid" {
            (Cmd::none(name), vec![])
        } else {
            let mut cmd = Cmd::random(&mut c.r, &w, name, &few, Default::default());
            let so = if SELECTING.contains(&name) { cmd.selection(&mut c.r, &w, &mut sel) } else { vec![] };
            (cmd, so)
        };
        if name == "check" && !same {
            // (the file has the same name in every job)
            w.write(&format!("rules{i}.toml"), b"[rule.A]\ncheck = \"filter\"\nfilter = \"003@.0?\"\n");
            cmd.opts = vec!["-R".into(), w.path(&format!("rules{i}.toml"))];
        }
        if matches!(name, "partition" | "split") && recs.len() > 100 {
            cmd.pos = words(&[if name == "split" { "400" } else { "012A.a" }]);
        }
        let seed = c.r.u64();
        let solo = Target::random(&mut Rng::new(seed), &w, &cmd, &format!("s{i}"));
        let both = Target::random(&mut Rng::new(seed), &w, &cmd, &format!("t{i}"));
        jobs.push(Job { cmd, solo, both, line: c.r.u64(), so });
    }
    let lines: Vec<[Vec<String>; 2]> = jobs
        .iter()
        .map(|j| {
            [&j.solo, &j.both].map(|t| j.cmd.line(&mut Rng::new(j.line), &j.so, t, &inp.args))
        })
        .collect();
    let mut want = vec![];
    for l in &lines {
        want.push(w.run_with(&l[0], &inp.setup())?);
    }
    let before = snapshot(&w);
    let outs: Vec<Result<Out, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = lines
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let setup = Setup { tag: i.to_string(), ..inp.setup() };
                let w = &w;
                s.spawn(move || w.run_with(&l[1], &setup))
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("a run")).collect()
    });
    let after = snapshot(&w);
    let info = || {
        format!(
            "at the same time: {}{}",
            lines.iter().map(|l| cmdline(&l[1])).collect::<Vec<_>>().join("\n   "),
            inp.describe()
        )
    };
    let bad = changes(&before, &after, |k, was| {
        !was && jobs.iter().any(|j| j.both.paths().iter().any(|p| k == p || k.starts_with(&format!("{p}/"))))
    });
    if !bad.is_empty() {
        return Err(format!("{}; {}", bad.join(", "), info()));
    }
    for ((j, x), o) in jobs.iter().zip(&want).zip(outs) {
        let o = o?;
        if o.code != x.code {
            return Err(format!(
                "{}: exit status {} ({}) but {} ({}) alone; {}",
                j.cmd.name, o.code, o.err.trim(), x.code, x.err.trim(), info()
            ));
        }
        if o.code != 0 && !(j.cmd.name == "check" && o.code == 1) {
            continue;
        }
        let want = j.solo.outputs(&w, x).map_err(|e| format!("{e}; {}", info()))?;
        let got = j.both.outputs(&w, &o).map_err(|e| format!("{e}; {}", info()))?;
        same_outputs(&got, &want, info)?;
        c.count("runs at the same time", 1);
    }
    c.sig(&format!("together/{n}/{same}/{}", jobs.iter().map(|j| j.cmd.name).collect::<Vec<_>>().join("+")));
    c.sample(|| json!({"commands": lines.iter().map(|l| cmdline(&l[1])).collect::<Vec<_>>()}));
    Ok(())
}

/// Commands without records.
fn others(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    for f in ["config.toml", "x", "home/y"] {
        w.write(f, b"precious");
    }
    let home = "home/.config/pica/config.toml";
    let (conf, pre): (&str, Vec<String>) = match c.r.below(3) {
        0 => (home, vec![]),
        1 => ("my.toml", vec!["-c".into(), w.path("my.toml")]),
        _ => ("sub/my.toml", vec!["--config".into(), w.path("sub/my.toml")]),
    };
    let exists = c.r.bool();
    if exists {
        w.write(conf, b"skip-invalid = true\nnormalization = \"nfd\"\n");
    }
    let mut args = pre;
    let (rest, changes_config, file): (Vec<String>, bool, Option<&str>) = match c.r.below(9) {
        0 => (words(&["config", "skip-invalid"]), false, None),
        1 => (words(&["config", "--get", "skip-invalid"]), false, None),
        2 => (words(&["config", "normalization", "nfc"]), true, None),
        3 => (words(&["config", "--unset", "normalization"]), true, None),
        4 => (words(&["config", "--unset", "skip-invalid"]), true, None),
        5 => (words(&["config", "skip-invalid", c.r.pick(&["true", "false"])]), true, None),
        6 => (words(&["completions", c.r.pick(&["bash", "fish", "zsh"])]), false, None),
        7 => {
            let mut a = words(&["completions", c.r.pick(&["bash", "fish", "zsh"]), "-o"]);
            a.push(w.path("comp"));
            (a, false, Some("comp"))
        }
        _ => {
            let a = words(c.r.pick::<&[&str]>(&[
                &["--help"],
                &["--version"],
                &["filter", "--help"],
                &["help", "select"],
                &["config", "no-such-key"],
                &["nothing"],
                &[],
            ]));
            (a, false, None)
        }
    };
    args.extend(rest);
    let before = snapshot(&w);
    let out = w.run(&args, b"")?;
    let after = snapshot(&w);
    let parents: Vec<&str> = match conf {
        "my.toml" => vec![],
        "sub/my.toml" => vec!["sub"],
        _ => vec!["home/.config", "home/.config/pica"],
    };
    let bad = changes(&before, &after, |k, _| {
        Some(k) == file || changes_config && (k == conf || parents.contains(&k))
    });
    if !bad.is_empty() {
        return Err(format!("exit status {}: {}; {}", out.code, bad.join(", "), cmdline(&args)));
    }
    if out.crashed() {
        return Err(format!("crashed: {}; {}", out.err, cmdline(&args)));
    }
    c.count("runs without records", 1);
    c.sig(&format!("others/{}/{exists}", args.join(" ").replace(&w.path(""), "")));
    Ok(())
}

pub fn c36(ctx: &mut Ctx) {
    ctx.rule(
        "A case of 'touch' takes a snapshot (names, contents, permissions, links) of the directory in which \
         inputs, lists, rules, configuration, home, temporary directory and bystanders with tempting names \
         lie, runs a random use of one of 16 commands (a third of them made to fail) and compares: only the \
         named outputs may differ, and these must hold the same as without something being there. \
         'together' runs two to five commands at the same time in one directory and compares with each of \
         them alone. 'others' does it for config, completions, help and usage errors. A situation is the \
         command, the output, how it was made to fail and what was there.",
    );
    ctx.run("touch", 1_600, 60_000, |c| touch(ctx, c));
    ctx.run("together", 200, 6_000, |c| together(ctx, c));
    ctx.run("others", 150, 3_000, |c| others(ctx, c));
    ctx.require("files and directories watched", 5_000);
    ctx.require("successful runs", 300);
    ctx.require("failing runs", 100);
    ctx.require("runs at the same time", 100);
    ctx.require("outputs replaced or extended", 50);
}
