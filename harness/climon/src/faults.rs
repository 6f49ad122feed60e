//! Failing outputs.
use std::fs;
use std::os::unix::fs::PermissionsExt;

use model::generate::Opts;
use model::mon::*;
use model::rec::*;
use serde_json::json;

use crate::cli::*;
use crate::cmds::*;
use crate::records::tree;

const WRITING: &[&str] = &[
    "check", "concat", "convert", "count", "describe", "explode", "filter", "frequency", "hash", "partition",
    "print", "sample", "select", "slice", "split",
];

/// Inputs whose outputs are small, or larger than buffers.
fn inputs(c: &mut Case, w: &Work, pipe: bool) -> Input {
    let o = Opts { utf8: true, max_fields: 4, ..Default::default() };
    let mut ls = stream(&mut c.r, 10, &o);
    if ls.is_empty() {
        ls.push(b"003@ \x1f01\x1e012A \x1faabc\x1e\n".to_vec());
    }
    let big = match if pipe { c.r.below(10) } else { c.r.below(5) } {
        0 | 1 => 0,
        2 | 3 => 300,
        _ => 3000,
    };
    for i in 0..big {
        ls.push(format!("003@ \x1f0{i}\x1e012A \x1faabc{}\x1fbxyz{}{}\x1e\n", i % 97, i * i, &"-------------------------------------------"[..i % 40]).into_bytes());
    }
    input(&mut c.r, w, ls)
}

/// A command that succeeds, with what it writes.
struct Plan {
    inp: Input,
    cmd: Cmd,
    target: Target,
    want: Outputs,
    args: Vec<String>,
    /// Sizes of the written files (as they are on the disk).
    sizes: Vec<u64>,
    size: usize,
    err: String,
}

fn plan(c: &mut Case, w: &Work, name: &'static str, pipe: bool) -> Result<Option<Plan>, String> {
    let inp = inputs(c, w, pipe);
    let recs = inp.recs();
    let few: Vec<&Rec> = recs.iter().copied().take(12).collect();
    let mut cmd = Cmd::random(&mut c.r, w, name, &few, Default::default());
    match name {
        // values everywhere
        "select" | "frequency" if c.r.chance(2, 3) => cmd.pos = words(&["003@.0, 012A{a, b}"]),
        "sample" => cmd.pos = vec![recs.len().to_string()],
        "split" => cmd.pos = vec![(recs.len() / 3 + 1).to_string()],
        "partition" => cmd.pos = words(&[if recs.len() < 500 { "003@.0" } else { "012A.a" }]),
        "check" => {
            let text = "[rule.A]\ncheck = \"filter\"\nfilter = \"003@.0?\"\ninvert-match = false\n\
                        [rule.B]\ncheck = \"filter\"\nfilter = \"012A.a?\"\ninvert-match = true\n";
            w.write("rules.toml", text.as_bytes());
            cmd.opts = vec!["-R".into(), w.path("rules.toml")];
        }
        _ => {}
    }
    if matches!(name, "explode" | "filter" | "slice") {
        cmd.opts.clear();
    }
    let mut sel = Sel::all();
    if name != "convert" && name != "concat" {
        // limits do not excuse from reporting failures
        match c.r.below(6) {
            0 => sel.limit = recs.len(),
            1 => sel.limit = c.r.range(1, recs.len()),
            _ => {}
        }
        sel.skip = c.r.chance(1, 6);
    }
    let so = if SELECTING.contains(&name) { cmd.selection(&mut c.r, w, &mut sel) } else { vec![] };
    let target =
        if pipe && !cmd.dir && c.r.chance(3, 4) { Target::stdout() } else { Target::random(&mut c.r, w, &cmd, "x") };
    let args = cmd.line(&mut c.r, &so, &target, &inp.args);
    let out = w.run_with(&args, &inp.setup())?;
    if out.code == 2 {
        // an output that cannot be written by its nature
        return Ok(None);
    }
    out.ok().map_err(|e| format!("{e}; {}", cmdline(&args)))?;
    let want = target.outputs(w, &out).map_err(|e| format!("{e}; {}", cmdline(&args)))?;
    let mut sizes = vec![];
    if !out.out.is_empty() {
        sizes.push(out.out.len() as u64);
    }
    for p in target.paths() {
        let path = w.dir.join(&p);
        if path.is_dir() {
            sizes.extend(tree(&path).values().map(|d| d.len() as u64));
        } else {
            sizes.push(fs::metadata(&path).map_err(|e| e.to_string())?.len());
        }
    }
    let size = want.values().map(Vec::len).sum();
    clean(w, &target);
    Ok(Some(Plan { inp, cmd, target, want, args, sizes, size, err: out.err }))
}

fn clean(w: &Work, t: &Target) {
    for p in t.paths() {
        let path = w.dir.join(&p);
        if path.is_dir() {
            let _ = fs::remove_dir_all(&path);
        } else {
            let _ = fs::remove_file(&path);
        }
    }
}

fn info(p: &Plan, args: &[String], what: &str) -> String {
    format!("{what}: {} ({} bytes of output in {:?}){}", cmdline(args), p.size, p.target.kind, p.cmd.note)
}

pub fn c32(ctx: &mut Ctx) {
    ctx.level("fault_enumeration");
    ctx.rule(
        "A case runs a random use of one of 15 commands undisturbed and again with a failing output: \
         'limits' lets every write behind a random size fail (file size limit, for stdout, files, \
         compressed files, directories, tee files); 'targets' writes to a full device, to files that \
         cannot be created (missing directory, a directory, no permission) and into directories that \
         are none; 'pipes' closes the reading end of stdout after some bytes; 'others' does the same \
         with the config and completions commands. If the status is 0, all outputs must be equal to the \
         undisturbed ones; otherwise it must be 2 or 1 with a message; a full device and a file that \
         cannot be created must lead to a failure. A situation is the command with its output, the \
         kind of failure and its place.",
    );
    ctx.run("limits", 900, 30_000, |c| {
        let w = Work::new(ctx, c);
        let name = WRITING[c.idx as usize % WRITING.len()];
        let Some(p) = plan(c, &w, name, false)? else { return Ok(()) };
        let max = p.sizes.iter().max().copied().unwrap_or(0);
        let limit = match c.r.below(8) {
            0 => 0,
            1 => max.saturating_sub(1),
            2 => max,
            3 => *c.r.pick(&[1, 9, 10, 4096, 8191, 8192, 8193]),
            4 => max.saturating_sub(c.r.below(20) as u64),
            _ => c.r.below(max as usize + 1) as u64,
        };
        let s = Setup { fsize: Some(limit), ..p.inp.setup() };
        let out = w.run_with(&p.args, &s)?;
        let what = || info(&p, &p.args, &format!("files limited to {limit} of {max} bytes"));
        let place = if limit == 0 {
            "0".into()
        } else if limit >= max {
            "full".into()
        } else if max - limit < 20 {
            "end".into()
        } else {
            format!("{}", (limit / 4096).min(9))
        };
        c.sig(&format!("limits/{name}/{}/{place}/{}", p.target.kind, p.cmd.opts.len()));
        if out.code == 0 {
            let got = p.target.outputs(&w, &out).map_err(|e| {
                format!("the status is 0 but the output is incomplete: {e}; {}", what())
            })?;
            same_outputs(&got, &p.want, || format!("the status is 0 but the output is incomplete; {}", what()))?;
            c.count("successes with complete output", 1);
            return Ok(());
        }
        if limit >= max {
            return Err(format!("exit status {} ({}) though there is room enough; {}", out.code, out.err.trim(), what()));
        }
        c.count("failed writes reported", 1);
        c.sample(|| json!({"command": cmdline(&p.args), "limit": limit, "size": max, "message": out.err.trim()}));
        out.failed().map_err(|e| format!("{e}; {}", what()))
    });
    ctx.run("targets", 900, 20_000, |c| {
        let w = Work::new(ctx, c);
        let name = WRITING[c.idx as usize % WRITING.len()];
        let Some(p) = plan(c, &w, name, false)? else { return Ok(()) };
        let mut args = p.args.clone();
        let mut s = p.inp.setup();
        // anything written to the target fails
        let full = "/dev/full".to_string();
        let must;
        let kind;
        let old = p.target.paths();
        if let Some(f) = old.first() {
            let f = w.path(f);
            let at = args.iter().position(|a| *a == f).expect("output argument");
            let dir = p.target.dir.is_some();
            let mut kinds = vec!["missing directory", "below a file"];
            if contained() {
                kinds.push("no permission");
            }
            if !dir {
                kinds.extend(["a directory", "full", "full"]);
            } else {
                kinds.retain(|k| *k != "missing directory");
            }
            kind = *c.r.pick(&kinds);
            args[at] = match kind {
                "missing directory" => w.path("no/such/out.csv"),
                "below a file" => {
                    w.write("plain", b"x");
                    w.path("plain/out.csv")
                }
                "a directory" => w.path("home"),
                "no permission" => {
                    let d = w.write("locked/x", b"x");
                    let d = std::path::Path::new(&d).parent().unwrap().to_path_buf();
                    let _ = fs::set_permissions(&d, fs::Permissions::from_mode(0o555));
                    w.path("locked/out.csv")
                }
                _ => full.clone(),
            };
            must = kind != "full" || p.size > 0 || name == "describe";
            if name == "describe" {
                // the name of the file chooses the format
                args.push("--csv".into());
            }
            if let Some(i) = args.iter().position(|a| a == "--append") {
                // no seek to the end of a device
                if kind == "full" {
                    args.remove(i);
                }
            }
            if kind == "full" && f.ends_with(".gz") {
                c.count("compressed output to plain names", 1);
            }
        } else {
            kind = "full";
            s.stdout = Some(full.into());
            must = p.want.values().any(|v| !v.is_empty()) || p.target.kind.ends_with("gzip");
        }
        let out = w.run_with(&args, &s)?;
        if kind == "no permission" {
            let _ = fs::set_permissions(w.dir.join("locked"), fs::Permissions::from_mode(0o755));
        }
        let what = || info(&p, &args, kind);
        c.sig(&format!("targets/{name}/{}/{kind}/{}", p.target.kind, (p.size / 4096).min(4)));
        if must {
            c.count(&format!("outputs that fail: {kind}"), 1);
            return out.failed().map_err(|e| format!("{e}; {}", what()));
        }
        c.count("nothing to write", 1);
        if out.code != 0 {
            out.failed().map_err(|e| format!("{e}; {}", what()))?;
        }
        Ok(())
    });
    ctx.run("pipes", 600, 12_000, |c| {
        let w = Work::new(ctx, c);
        let name = WRITING[c.idx as usize % WRITING.len()];
        let Some(p) = plan(c, &w, name, true)? else { return Ok(()) };
        let total = p.want["stdout"].len();
        let n = match c.r.below(4) {
            0 => 0,
            1 => 1,
            2 => total.saturating_sub(c.r.below(10)),
            _ => c.r.below(total + 1),
        };
        let s = Setup { close_after: Some(n), ..p.inp.setup() };
        let out = w.run_with(&p.args, &s)?;
        let what = || info(&p, &p.args, &format!("stdout closed after {n} of {total} bytes"));
        c.sig(&format!("pipes/{name}/{}/{}/{}", p.target.kind, n.min(2), (p.size / 4096).min(4)));
        // warnings are no consequence of the closed pipe
        if out.code != 0 || !out.err.lines().all(|l| p.err.contains(l)) {
            return Err(format!("exit status {} with message '{}'; {}", out.code, out.err.trim(), what()));
        }
        if !p.target.gzip && !p.want["stdout"].starts_with(&out.out) {
            return Err(format!("not the beginning of the output: '{}'; {}", show(&out.out), what()));
        }
        c.count("pipes closed", 1);
        if total > 65_536 + n {
            c.count("pipes closed before the end of the output", 1);
        }
        Ok(())
    });
    ctx.run("others", 120, 1_500, |c| {
        let w = Work::new(ctx, c);
        let shell = *c.r.pick(&["bash", "elvish", "fish", "powershell", "zsh"]);
        let key = *c.r.pick(&[("skip-invalid", "true"), ("normalization", "nfd")]);
        let kind = *c.r.pick(&["completions", "completions -o", "config --get", "config --set", "config value", "invalid"]);
        let mut args = match kind {
            "completions" => words(&["completions", shell]),
            "completions -o" => words(&["completions", shell, "-o", &w.path("out")]),
            "config --get" => words(&["-c", &w.path("cfg/c.toml"), "config", "--get", key.0]),
            "config --set" => words(&["-c", &w.path("cfg/c.toml"), "config", "--set", key.0, key.1]),
            "config value" => words(&["-c", &w.path("cfg/c.toml"), "config", key.0, key.1]),
            _ => words(&["invalid"]),
        };
        let to_file = matches!(kind, "completions -o" | "config --set" | "config value");
        let stdin: Vec<u8> = b"garbage\n".repeat(c.r.range(1, 3000));
        let good = w.run(&args, &stdin)?;
        good.ok().map_err(|e| format!("{e}; {}", cmdline(&args)))?;
        let file = if kind == "completions -o" { "out" } else { "cfg/c.toml" };
        let want = if to_file { w.read(file)? } else { good.out.clone() };
        c.count("runs of other commands", 1);
        let mode = c.r.below(3);
        c.sig(&format!("others/{kind}/{}/{mode}", if kind.starts_with("comp") { shell } else { key.0 }));
        let what = |m: &str, a: &[String]| format!("{m}: {}", cmdline(a));
        match mode {
            0 => {
                // a limit
                let _ = fs::remove_file(w.dir.join(file));
                let limit = c.r.below(want.len() + 1) as u64;
                let s = Setup { fsize: Some(limit), stdin, ..Default::default() };
                let out = w.run_with(&args, &s)?;
                let m = format!("files limited to {limit} of {} bytes", want.len());
                if out.code == 0 {
                    let got = if to_file { w.read(file)? } else { out.out.clone() };
                    return same_output(&got, &want, || what(&m, &args));
                }
                c.count("failed writes reported", 1);
                out.failed().map_err(|e| format!("{e}; {}", what(&m, &args)))
            }
            1 if to_file => {
                let f = w.path(file);
                let at = args.iter().position(|a| *a == f).expect("file argument");
                w.write("plain", b"x");
                args[at] = w.path("plain/below");
                let out = w.run(&args, &stdin)?;
                c.count("failed writes reported", 1);
                out.failed().map_err(|e| format!("{e}; {}", what("below a file", &args)))
            }
            1 => {
                let s = Setup { stdout: Some("/dev/full".into()), stdin, ..Default::default() };
                let out = w.run_with(&args, &s)?;
                c.count("failed writes reported", 1);
                out.failed().map_err(|e| format!("{e}; {}", what("full", &args)))
            }
            _ => {
                let n = c.r.below(want.len() + 1);
                let s = Setup { close_after: Some(n), stdin, ..Default::default() };
                let out = w.run_with(&args, &s)?;
                if out.code != 0 || !out.err.trim().is_empty() {
                    return Err(format!(
                        "exit status {} with message '{}'; {}",
                        out.code,
                        out.err.trim(),
                        what("closed pipe", &args)
                    ));
                }
                c.count("pipes closed", 1);
                Ok(())
            }
        }
    });
    ctx.require("failed writes reported", 200);
    ctx.require("successes with complete output", 50);
    ctx.require("pipes closed before the end of the output", 20);
}
