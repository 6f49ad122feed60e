//! Runs of the `pica` program, inputs, selections and outputs.
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

use flate2::Compression;
use flate2::read::MultiGzDecoder;
use flate2::write::GzEncoder;
use model::expr::*;
use model::generate::{self, Opts};
use model::mon::*;
use model::query::Path as MPath;
use model::rec::*;
use model::rng::Rng;

// ---------------------------------------------------------------- programs

pub fn binary() -> &'static Path {
    static BIN: OnceLock<PathBuf> = OnceLock::new();
    BIN.get_or_init(|| {
        std::env::var_os("VMON_PICA")
            .map_or_else(|| "/verif/.build/cli/debug/pica".into(), PathBuf::from)
    })
}

const NOBODY: u32 = 65534;

/// Can programs run as an unprivileged user?
///
/// Values that must not lead out of a directory are tried only if they
/// could do no harm.
pub fn contained() -> bool {
    static YES: OnceLock<bool> = OnceLock::new();
    *YES.get_or_init(|| {
        Command::new(binary())
            .arg("--version")
            .uid(NOBODY)
            .gid(NOBODY)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .is_ok_and(|s| s.success())
    })
}

fn give_away(p: &Path) {
    if contained() {
        let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
    }
}

pub struct Out {
    /// The exit status, or minus the number of the signal.
    pub code: i32,
    pub out: Vec<u8>,
    pub err: String,
    /// Still running when the time was up.
    pub hung: bool,
}

impl Out {
    /// The program must have succeeded.
    pub fn ok(&self) -> Result<&[u8], String> {
        if self.code != 0 {
            return Err(format!("exit status {}: {}", self.code, self.err.trim()));
        }
        Ok(&self.out)
    }

    /// The program must have failed with a message (and not crashed).
    pub fn failed(&self) -> Verdict {
        if self.code != 2 && self.code != 1 {
            return Err(format!("exit status {} instead of a failure: {}", self.code, self.err.trim()));
        }
        if self.err.trim().is_empty() {
            return Err(format!("exit status {} without a message", self.code));
        }
        Ok(())
    }

    pub fn crashed(&self) -> bool {
        self.hung || self.code < 0 || self.code == 101 || self.err.contains("panicked at")
    }
}

/// The scratch directory of a case.
pub struct Work {
    pub dir: PathBuf,
}

#[derive(Default)]
pub struct Setup {
    pub stdin: Vec<u8>,
    /// Deliver standard input through a pipe in pieces.
    pub pipe: bool,
    /// Size limit of written files.
    pub fsize: Option<u64>,
    /// Send standard output there.
    pub stdout: Option<PathBuf>,
    /// Close the reading end of standard output after that many bytes.
    pub close_after: Option<usize>,
    pub timeout: Option<u64>,
    /// Limit of open files.
    pub nofile: Option<u64>,
    /// Changes of the environment.
    pub env: Vec<(String, Option<String>)>,
    /// Standard error is a terminal.
    pub tty: bool,
    /// Distinguishes runs at the same time.
    pub tag: String,
}

/// A terminal: the side of the observer and the side of the program.
fn terminal() -> Option<(fs::File, fs::File)> {
    use std::os::fd::FromRawFd;
    let (mut a, mut b) = (-1, -1);
    let size = libc::winsize { ws_row: 50, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
    unsafe {
        if libc::openpty(&mut a, &mut b, std::ptr::null_mut(), std::ptr::null(), &size) != 0 {
            return None;
        }
        for fd in [a, b] {
            libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        Some((fs::File::from_raw_fd(a), fs::File::from_raw_fd(b)))
    }
}

impl Work {
    pub fn new(ctx: &Ctx, c: &Case) -> Work {
        let dir = ctx.scratch.join(format!("t{}", c.thread));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("home")).expect("scratch directory");
        give_away(&dir);
        give_away(&dir.join("home"));
        Work { dir }
    }

    pub fn path(&self, name: &str) -> String {
        self.dir.join(name).to_str().unwrap().to_string()
    }

    pub fn write(&self, name: &str, data: &[u8]) -> String {
        let p = self.dir.join(name);
        if let Some(d) = p.parent() {
            let _ = fs::create_dir_all(d);
            let mut d = d;
            while d != self.dir {
                give_away(d);
                d = d.parent().expect("in the scratch directory");
            }
        }
        fs::write(&p, data).expect("scratch file");
        give_away(&p);
        p.to_str().unwrap().to_string()
    }

    pub fn read(&self, name: &str) -> Result<Vec<u8>, String> {
        fs::read(self.dir.join(name)).map_err(|e| format!("output file {name}: {e}"))
    }

    /// The (decompressed) content of an output file.
    pub fn read_any(&self, name: &str, gz: bool) -> Result<Vec<u8>, String> {
        let d = self.read(name)?;
        if gz { gunzip(&d).map_err(|e| format!("{name}: {e}")) } else { Ok(d) }
    }

    pub fn run(&self, args: &[String], stdin: &[u8]) -> Result<Out, String> {
        self.run_with(args, &Setup { stdin: stdin.to_vec(), ..Default::default() })
    }

    pub fn run_with(&self, args: &[String], s: &Setup) -> Result<Out, String> {
        let wrap = |e: std::io::Error| format!("{INCONCLUSIVE}cannot run pica: {e}");
        if args.iter().any(|a| a.contains('\0')) {
            return inconclusive("NUL in an argument");
        }
        let inname = format!(".in{}", s.tag);
        let outname = format!(".out{}", s.tag);
        let errname = format!(".err{}", s.tag);
        let mut cmd = Command::new(binary());
        cmd.args(args)
            .current_dir(&self.dir)
            .env_clear()
            .env("HOME", self.dir.join("home"))
            .env("PATH", "/usr/bin:/bin")
            .env("LANG", "C.UTF-8")
            .env("TZ", "UTC")
            .env("POLARS_MAX_THREADS", "2")
            .stderr(fs::File::create(self.dir.join(&errname)).map_err(wrap)?);
        for (k, v) in &s.env {
            match v {
                Some(v) => cmd.env(k, v),
                None => cmd.env_remove(k),
            };
        }
        let mut screen = None;
        if s.tty && let Some((ours, theirs)) = terminal() {
            cmd.stderr(theirs);
            screen = Some(ours);
        }
        if s.fsize.is_some() {
            // messages are no files
            cmd.stderr(Stdio::piped());
        }
        if contained() {
            cmd.uid(NOBODY).gid(NOBODY);
        }
        if s.pipe {
            cmd.stdin(Stdio::piped());
        } else {
            fs::write(self.dir.join(&inname), &s.stdin).map_err(wrap)?;
            cmd.stdin(fs::File::open(self.dir.join(&inname)).map_err(wrap)?);
        }
        if s.close_after.is_some() {
            cmd.stdout(Stdio::piped());
        } else if let Some(p) = &s.stdout {
            cmd.stdout(fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).map_err(wrap)?);
        } else {
            cmd.stdout(fs::File::create(self.dir.join(&outname)).map_err(wrap)?);
        }
        let (fsize, nofile) = (s.fsize, s.nofile);
        unsafe {
            cmd.pre_exec(move || {
                let set = |what, cur: u64, max: u64| {
                    let l = libc::rlimit { rlim_cur: cur, rlim_max: max };
                    libc::setrlimit(what, &l);
                };
                set(libc::RLIMIT_CORE, 0, 0);
                set(libc::RLIMIT_CPU, 150, 160);
                set(libc::RLIMIT_STACK, 8 << 20, 8 << 20);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if let Some(n) = nofile {
                    set(libc::RLIMIT_NOFILE, n, n);
                }
                if let Some(n) = fsize {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    set(libc::RLIMIT_FSIZE, n, n);
                }
                Ok(())
            });
        }
        let mut child = cmd.spawn().map_err(wrap)?;
        // (holds the terminal)
        drop(cmd);
        let screen = screen.map(|mut ours| {
            std::thread::spawn(move || {
                let mut m = vec![];
                // ends with an error when the program has ended
                let _ = ours.read_to_end(&mut m);
                m
            })
        });
        let feeder = child.stdin.take().map(|mut i| {
            let data = s.stdin.clone();
            std::thread::spawn(move || {
                let mut k = 1;
                let mut pos = 0;
                while pos < data.len() {
                    let n = (k * 37 % 4001 + 1).min(data.len() - pos);
                    if i.write_all(&data[pos..pos + n]).is_err() {
                        break;
                    }
                    pos += n;
                    k += 1;
                }
            })
        });
        let messages = child.stderr.take().map(|mut e| {
            std::thread::spawn(move || {
                let mut m = vec![];
                let _ = e.read_to_end(&mut m);
                m
            })
        });
        let mut part = vec![];
        if let Some(n) = s.close_after {
            let mut o = child.stdout.take().unwrap();
            let _ = o.by_ref().take(n as u64).read_to_end(&mut part);
            drop(o);
        }
        let start = Instant::now();
        let limit = Duration::from_secs(s.timeout.unwrap_or(100));
        let mut nap = 300;
        let mut hung = false;
        let status = loop {
            match child.try_wait().map_err(wrap)? {
                Some(st) => break st,
                None if start.elapsed() > limit => {
                    hung = true;
                    let _ = child.kill();
                    break child.wait().map_err(wrap)?;
                }
                None => {
                    std::thread::sleep(Duration::from_micros(nap));
                    nap = (nap * 5 / 4).min(10_000);
                }
            }
        };
        if let Some(f) = feeder {
            let _ = f.join();
        }
        let code = status.code().unwrap_or_else(|| -status.signal().unwrap_or(0));
        let err = match screen.or(messages) {
            Some(m) => m.join().unwrap_or_default(),
            None => fs::read(self.dir.join(&errname)).unwrap_or_default(),
        };
        let out = if s.close_after.is_some() {
            part
        } else if s.stdout.is_some() {
            vec![]
        } else {
            fs::read(self.dir.join(&outname)).unwrap_or_default()
        };
        if hung && s.timeout.is_none() {
            return inconclusive(format!("no end after {limit:?}: pica {args:?}"));
        }
        if code == -libc::SIGKILL && !hung {
            return inconclusive("the program was killed from outside");
        }
        Ok(Out { code, out, err: String::from_utf8_lossy(&err).into_owned(), hung })
    }
}

pub fn words(args: &[&str]) -> Vec<String> {
    args.iter().map(|a| a.to_string()).collect()
}

// ---------------------------------------------------------------- gzip

pub fn gzip(data: &[u8]) -> Vec<u8> {
    let mut e = GzEncoder::new(vec![], Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn gzip_members(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    let n = r.range(1, 3);
    let mut cuts: Vec<usize> = (1..n).map(|_| r.below(data.len() + 1)).collect();
    cuts.sort();
    let mut out = vec![];
    let mut from = 0;
    for c in cuts.into_iter().chain([data.len()]) {
        out.extend(gzip(&data[from..c]));
        from = c;
    }
    out
}

pub fn gunzip(data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    if data.is_empty() {
        return Err("an empty file is no gzip file".into());
    }
    MultiGzDecoder::new(data).read_to_end(&mut out).map_err(|e| format!("gzip: {e}"))?;
    Ok(out)
}

// ---------------------------------------------------------------- inputs

pub struct Line {
    pub data: Vec<u8>,
    pub rec: Option<Rec>,
    pub file: usize,
    /// Number of the line in its file, from 1.
    pub no: usize,
}

pub struct Input {
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub lines: Vec<Line>,
    /// How error messages call the inputs.
    pub names: Vec<String>,
    pub kind: String,
    pub pipe: bool,
}

impl Input {
    pub fn recs(&self) -> Vec<&Rec> {
        self.lines.iter().filter_map(|l| l.rec.as_ref()).collect()
    }

    pub fn setup(&self) -> Setup {
        Setup { stdin: self.stdin.clone(), pipe: self.pipe, ..Default::default() }
    }

    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, n) in self.names.iter().enumerate() {
            s += &format!("\n  {n}:");
            for l in self.lines.iter().filter(|l| l.file == i).take(40) {
                s += &format!("\n    {}", show(&l.data));
            }
        }
        s
    }
}

/// Lays lines out over files and standard input.
pub fn input(r: &mut Rng, w: &Work, lines: Vec<Vec<u8>>) -> Input {
    let mut input = input_as(r, w, lines, "in");
    // a file may be given more than once
    let size: usize = input.lines.iter().map(|l| l.data.len()).sum();
    if size < 50_000 && r.chance(1, 10) && input.args.len() == input.names.len() {
        let i = r.below(input.args.len());
        if input.args[i] != "-" {
            let again: Vec<Line> = input
                .lines
                .iter()
                .filter(|l| l.file == i)
                .map(|l| Line { data: l.data.clone(), rec: l.rec.clone(), file: 0, no: l.no })
                .collect();
            // next to the first time, or at the end
            let at = if r.bool() { i + 1 } else { input.args.len() };
            let pos = input.lines.iter().take_while(|l| l.file < at).count();
            for l in &mut input.lines[pos..] {
                l.file += 1;
            }
            input.lines.splice(pos..pos, again.into_iter().map(|l| Line { file: at, ..l }));
            input.args.insert(at, input.args[i].clone());
            input.names.insert(at, input.names[i].clone());
            input.kind += "r";
        }
    }
    input
}

pub fn input_as(r: &mut Rng, w: &Work, lines: Vec<Vec<u8>>, prefix: &str) -> Input {
    let n = match r.below(6) {
        0..=2 => 1,
        3 | 4 => 2,
        _ => 3,
    };
    let mut cuts: Vec<usize> = (1..n).map(|_| r.below(lines.len() + 1)).collect();
    cuts.sort();
    let mut input = Input {
        args: vec![],
        stdin: vec![],
        lines: vec![],
        names: vec![],
        kind: String::new(),
        pipe: r.bool(),
    };
    let mut from = 0;
    let stdin_at = if r.chance(1, 3) { r.below(n) } else { usize::MAX };
    for (i, c) in cuts.into_iter().chain([lines.len()]).enumerate() {
        let data = lines[from..c].concat();
        for (k, l) in lines[from..c].iter().enumerate() {
            let rec = Rec::decode(l);
            input.lines.push(Line { data: l.clone(), rec, file: i, no: k + 1 });
        }
        from = c;
        if i == stdin_at {
            input.stdin = data;
            input.names.push("<stdin>".into());
            // standard input is the default
            if n > 1 || r.bool() {
                input.args.push("-".into());
            }
            input.kind += "s";
            continue;
        }
        let (name, content) = match r.below(3) {
            0 => (format!("{prefix}{i}.dat.gz"), gzip_members(r, &data)),
            _ => (format!("{prefix}{i}.dat"), data),
        };
        input.kind += if name.ends_with("gz") { "g" } else { "p" };
        let p = w.write(&name, &content);
        input.names.push(p.clone());
        input.args.push(p);
    }
    input
}

/// Records as lines, some of them repeated.
pub fn stream(r: &mut Rng, max: usize, o: &Opts) -> Vec<Vec<u8>> {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        _ => r.range(1, max),
    };
    let mut out: Vec<Rec> = vec![];
    for _ in 0..n {
        if !out.is_empty() && r.chance(1, 5) {
            let mut rec = r.pick(&out).clone();
            if r.chance(1, 3) && !rec.fields.is_empty() {
                let i = r.below(rec.fields.len());
                generate::similar(r, &mut rec.fields[i]);
            }
            out.push(rec);
            continue;
        }
        out.push(generate::record(r, o));
    }
    out.iter().map(Rec::encode).collect()
}

/// Puts lines that are no records between the others.
pub fn spoil(r: &mut Rng, lines: &mut Vec<Vec<u8>>, n: usize) {
    for _ in 0..n {
        let at = r.below(lines.len() + 1);
        let l = generate::invalid_line(r);
        lines.insert(at, l);
    }
}

// ---------------------------------------------------------------- selection

#[derive(Clone, Debug)]
pub struct List {
    pub values: Vec<String>,
    pub file: String,
}

#[derive(Clone, Debug, Default)]
pub struct Sel {
    pub cond: Option<(Cond, String)>,
    pub and: Vec<(Cond, String)>,
    pub or: Vec<(Cond, String)>,
    pub not: Vec<(Cond, String)>,
    pub ignore_case: bool,
    pub threshold: Option<u8>,
    pub allow: Vec<List>,
    pub deny: Vec<List>,
    pub column: Option<String>,
    pub source: Option<(MPath, String)>,
    pub limit: usize,
    pub skip: bool,
    pub short: bool,
}

/// Can the text be an argument of a program?
pub fn passable(t: &str) -> bool {
    !t.contains('\0') && t.len() < 100_000
}

pub fn cond_text(r: &mut Rng, rec: &Rec, depth: usize) -> (Cond, String) {
    loop {
        let c = cond_for(r, rec, depth);
        let st = Style::random(r);
        let t = c.text(r, &st);
        if passable(&t) && !t.starts_with('-') {
            return (c, t);
        }
    }
}

pub fn path_text(r: &mut Rng, rec: Option<&Rec>, simple: bool) -> (MPath, String) {
    loop {
        let p = if simple { MPath::simple(r, rec) } else { MPath::random(r, rec) };
        let st = Style::random(r);
        let t = p.text(r, &st);
        if passable(&t) {
            return (p, t);
        }
    }
}

/// Can the value stand in a list file?
fn listable(v: &[u8]) -> Option<String> {
    let s = std::str::from_utf8(v).ok()?;
    (!s.is_empty() && !s.contains(['\r', '\n', '\0'])).then(|| s.to_string())
}

pub struct SelKind {
    pub lists: bool,
    pub limit: bool,
}

impl Sel {
    /// No options at all.
    pub fn all() -> Sel {
        Sel::default()
    }

    pub fn mopts(&self) -> MOpts {
        MOpts {
            ignore_case: self.ignore_case,
            threshold: self.threshold.unwrap_or(75) as f64 / 100.0,
        }
    }

    pub fn random(r: &mut Rng, recs: &[&Rec], kind: SelKind) -> Sel {
        let mut s = Sel { short: r.bool(), ..Default::default() };
        let some = Rec { fields: vec![generate::ppn_field(r)] };
        let pick = |r: &mut Rng| -> Rec {
            if recs.is_empty() { some.clone() } else { (*r.pick(recs)).clone() }
        };
        // (an expression is slow on very many records)
        if recs.len() < 5_000 && r.chance(3, 5) {
            let rec = pick(r);
            let d = r.below(3);
            s.cond = Some(cond_text(r, &rec, d));
            match r.below(6) {
                0 => s.or = (0..r.range(1, 2)).map(|_| { let x = pick(r); cond_text(r, &x, 1) }).collect(),
                1 => s.and = (0..r.range(1, 2)).map(|_| { let x = pick(r); cond_text(r, &x, 1) }).collect(),
                2 => s.not = (0..r.range(1, 2)).map(|_| { let x = pick(r); cond_text(r, &x, 1) }).collect(),
                3 => {
                    let x = pick(r);
                    s.and = vec![cond_text(r, &x, 1)];
                    let x = pick(r);
                    s.not = vec![cond_text(r, &x, 0)];
                }
                _ => {}
            }
        }
        let often = if r.kin > 0 { 2 } else { 4 };
        s.ignore_case = r.chance(1, often);
        if r.chance(1, often) {
            s.threshold = Some(*r.pick(&[0, 1, 25, 50, 75, 80, 99]));
        }
        if kind.limit && r.chance(1, 4) {
            s.limit = r.range(1, recs.len() + 2);
        }
        if kind.lists && r.chance(1, 3) {
            if r.chance(1, 3) {
                let x = pick(r);
                s.source = Some(path_text(r, Some(&x), false));
            }
            if r.chance(1, 4) {
                s.column = Some(r.pick(&["id", "idn", "ppn", "a b", "x"]).to_string());
            }
            let n = r.range(1, 2);
            for _ in 0..n {
                let mut values = vec![];
                for _ in 0..r.below(6) {
                    let x = pick(r);
                    let p = s.source.as_ref().map(|x| x.0.clone());
                    let vals = source_values(&p, &x);
                    if let Some(v) = vals.first().and_then(|v| listable(v)) {
                        values.push(v);
                    }
                    if r.chance(1, 5) {
                        values.push(String::from_utf8(generate::ppn_value(r)).unwrap());
                    }
                }
                values.retain(|v| !v.is_empty());
                let l = List { values, file: String::new() };
                if r.bool() { s.allow.push(l) } else { s.deny.push(l) }
            }
        }
        s
    }

    /// Writes the lists and returns the options.
    pub fn args(&mut self, r: &mut Rng, w: &Work) -> Vec<String> {
        let mut a = vec![];
        if let Some((_, t)) = &self.cond {
            a.push("--where".into());
            a.push(t.clone());
        }
        for (o, l) in [("--and", &self.and), ("--or", &self.or), ("--not", &self.not)] {
            for (_, t) in l {
                a.push(o.into());
                a.push(t.clone());
            }
        }
        a.extend(self.other_args(r, w));
        a
    }

    pub fn other_args(&mut self, r: &mut Rng, w: &Work) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        if self.ignore_case {
            a.push(if self.short { "-i" } else { "--ignore-case" }.into());
        }
        if let Some(t) = self.threshold {
            a.push("--strsim-threshold".into());
            a.push(t.to_string());
        }
        if self.limit > 0 {
            if self.short {
                a.push(format!("-l{}", self.limit));
            } else {
                a.push("--limit".into());
                a.push(self.limit.to_string());
            }
        }
        if self.skip {
            a.push(if self.short { "-s" } else { "--skip-invalid" }.into());
        }
        if let Some(c) = &self.column {
            a.push("--filter-set-column".into());
            a.push(c.clone());
        }
        if let Some((_, t)) = &self.source {
            a.push("--filter-set-source".into());
            a.push(t.clone());
        }
        let column = self.column.clone();
        for (n, l) in self.allow.iter_mut().chain(self.deny.iter_mut()).enumerate() {
            l.file = crate::lists::write_list(r, w, &format!("list{n}"), &l.values, column.as_deref());
        }
        for l in &self.allow {
            a.push(if self.short { "-A" } else { "--allow-list" }.into());
            a.push(l.file.clone());
        }
        for l in &self.deny {
            a.push(if self.short { "-D" } else { "--deny-list" }.into());
            a.push(l.file.clone());
        }
        a
    }

    pub fn cond_holds(&self, rec: &Rec) -> bool {
        let o = self.mopts();
        let Some((c, _)) = &self.cond else { return true };
        let mut v = c.eval(rec, &o);
        for (c, _) in &self.and {
            v &= c.eval(rec, &o);
        }
        for (c, _) in &self.or {
            v |= c.eval(rec, &o);
        }
        for (c, _) in &self.not {
            v &= !c.eval(rec, &o);
        }
        v
    }

    pub fn listed(&self, rec: &Rec) -> bool {
        let vals = source_values(&self.source.as_ref().map(|x| x.0.clone()), rec);
        let has = |l: &[List]| {
            l.iter().flat_map(|l| &l.values).any(|v| vals.iter().any(|x| x == v.as_bytes()))
        };
        if !self.deny.is_empty() && has(&self.deny) {
            return false;
        }
        self.allow.is_empty() || has(&self.allow)
    }

    pub fn holds(&self, rec: &Rec) -> bool {
        self.listed(rec) && self.cond_holds(rec)
    }

    /// The selected records, at most `limit`.
    pub fn select<'a>(&self, recs: &[&'a Rec]) -> Vec<&'a Rec> {
        let n = if self.limit > 0 { self.limit } else { usize::MAX };
        recs.iter().copied().filter(|r| self.holds(r)).take(n).collect()
    }

    pub fn sig(&self) -> String {
        format!(
            "{}{}{}{}{}{}{}{}{}{}",
            self.cond.is_some() as u8,
            self.and.len(),
            self.or.len(),
            self.not.len(),
            self.ignore_case as u8,
            self.allow.len(),
            self.deny.len(),
            self.source.is_some() as u8,
            self.column.is_some() as u8,
            (self.limit > 0) as u8
        )
    }
}

fn source_values(p: &Option<MPath>, rec: &Rec) -> Vec<Vec<u8>> {
    match p {
        Some(p) => p.values(rec, &MOpts::default()),
        None => rec
            .fields
            .iter()
            .filter(|f| &f.tag == b"003@" && (f.occ.is_none() || f.occ.as_deref() == Some(b"00")))
            .flat_map(|f| &f.subs)
            .filter(|s| s.code == b'0')
            .map(|s| s.value.clone())
            .collect(),
    }
}

// ---------------------------------------------------------------- outputs

/// Where the output of a command goes.
pub struct Dest {
    pub args: Vec<String>,
    pub kind: &'static str,
    file: Option<String>,
    gz: bool,
    before: Vec<u8>,
    tee: Option<(String, bool)>,
}

pub struct DestKind {
    pub gzip: bool,
    pub append: bool,
    pub tee: bool,
}

impl Dest {
    pub fn random(r: &mut Rng, w: &Work, k: DestKind) -> Dest {
        let mut d = Dest { args: vec![], kind: "stdout", file: None, gz: false, before: vec![], tee: None };
        let mut kinds = vec!["stdout", "stdout", "file", "file.gz", "overwrite"];
        if k.gzip {
            kinds.extend(["stdout-gzip", "file-gzip"]);
        }
        if k.append {
            kinds.extend(["append", "append.gz", "append-new"]);
        }
        if k.tee {
            kinds.extend(["tee", "tee.gz"]);
            if k.append {
                kinds.push("tee-append");
            }
        }
        d.kind = r.pick::<&str>(&kinds);
        let o = |d: &mut Dest, name: &str, r: &mut Rng| {
            d.file = Some(name.into());
            d.args.push(if r.bool() { "-o" } else { "--output" }.into());
            d.args.push(w.path(name));
        };
        let old = b"003@ \x1f0old\x1e\n".to_vec();
        match d.kind {
            "file" => o(&mut d, "out.dat", r),
            "file.gz" => {
                d.gz = true;
                o(&mut d, "out.dat.gz", r)
            }
            "overwrite" => {
                w.write("out.dat", &vec![b'x'; 5000]);
                o(&mut d, "out.dat", r)
            }
            "stdout-gzip" => {
                d.gz = true;
                d.args.push(if r.bool() { "-g" } else { "--gzip" }.into());
            }
            "file-gzip" => {
                d.gz = true;
                d.args.push("--gzip".into());
                let n = if r.bool() { "out.bin" } else { "out.gz" };
                o(&mut d, n, r)
            }
            "append" => {
                w.write("out.dat", &old);
                d.before = old;
                d.args.push("--append".into());
                o(&mut d, "out.dat", r)
            }
            "append-new" => {
                d.args.push("--append".into());
                o(&mut d, "out.dat", r)
            }
            "append.gz" => {
                w.write("out.dat.gz", &gzip(&old));
                d.before = old;
                d.gz = true;
                d.args.push("--append".into());
                o(&mut d, "out.dat.gz", r)
            }
            "tee" | "tee.gz" => {
                let n = if d.kind == "tee" { "tee.dat" } else { "tee.dat.gz" };
                d.args.push("--tee".into());
                d.args.push(w.path(n));
                d.tee = Some((n.into(), n.ends_with("gz")));
            }
            "tee-append" => {
                w.write("tee.dat", &old);
                d.before = old;
                d.args.extend(["--append".into(), "--tee".into(), w.path("tee.dat")]);
                d.tee = Some(("tee.dat".into(), false));
            }
            _ => {}
        }
        d
    }

    /// What the command wrote.
    pub fn result(&self, w: &Work, out: &Out) -> Result<Vec<u8>, String> {
        let data = match &self.file {
            None => {
                if self.gz {
                    gunzip(&out.out)?
                } else {
                    out.out.clone()
                }
            }
            Some(f) => {
                if !out.out.is_empty() {
                    return Err(format!("output on stdout despite -o: '{}'", show(&out.out)));
                }
                w.read_any(f, self.gz)?
            }
        };
        if let Some((t, gz)) = &self.tee {
            let tee = w.read_any(t, *gz)?;
            let Some(new) = tee.strip_prefix(&self.before[..]) else {
                return Err(format!("--append lost the content of the tee file: '{}'", show(&tee)));
            };
            if new != data {
                return Err(format!(
                    "the tee file has '{}' but the output is '{}'",
                    show(new),
                    show(&data)
                ));
            }
            return Ok(data);
        }
        match data.strip_prefix(&self.before[..]) {
            Some(d) => Ok(d.to_vec()),
            None => Err(format!("--append lost the content of the file: '{}'", show(&data))),
        }
    }
}

pub fn concat(recs: &[&Rec]) -> Vec<u8> {
    recs.iter().flat_map(|r| r.encode()).collect()
}

/// Compares outputs; the message names the first differing line.
pub fn same_output(got: &[u8], want: &[u8], ctx: impl Fn() -> String) -> Verdict {
    if got == want {
        return Ok(());
    }
    let (g, x): (Vec<_>, Vec<_>) =
        (got.split_inclusive(|b| *b == b'\n').collect(), want.split_inclusive(|b| *b == b'\n').collect());
    let i = (0..).find(|i| g.get(*i) != x.get(*i)).unwrap();
    let t = |l: Option<&&[u8]>| l.map_or("(end)".into(), |l| format!("'{}'", show(l)));
    Err(format!(
        "line {} of {} should be (of {})\n    {}\n  but is\n    {}\n  {}",
        i + 1,
        g.len(),
        x.len(),
        t(x.get(i)),
        t(g.get(i)),
        ctx()
    ))
}

pub fn cmdline(args: &[String]) -> String {
    format!("pica {}", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "))
}
