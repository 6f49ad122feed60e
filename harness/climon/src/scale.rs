//! C37: memory, time and promptness.
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use model::mon::*;
use model::rng::Rng;
use serde_json::json;

use crate::cli::*;

// ---------------------------------------------------------------- measuring

fn prepare(w: &Work, cmd: &mut Command) {
    cmd.current_dir(&w.dir)
        .env_clear()
        .env("HOME", w.dir.join("home"))
        .env("PATH", "/usr/bin:/bin")
        .env("LANG", "C.UTF-8")
        .env("TZ", "UTC")
        .env("POLARS_MAX_THREADS", "2");
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 150, rlim_max: 160 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            // what goes wild ends with an error instead of taking the memory
            let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

/// Runs a program and reports its status, time and memory in a file. This
/// is a process of its own because a new process starts with the peak of
/// the one it comes from.
pub fn measure(args: &[String]) -> i32 {
    let mut cmd = Command::new(&args[1]);
    cmd.args(&args[2..]);
    let Ok(child) = cmd.spawn() else { return 3 };
    let mut status = 0;
    let mut usage: libc::rusage = unsafe { std::mem::zeroed() };
    if unsafe { libc::wait4(child.id() as i32, &mut status, 0, &mut usage) } < 0 {
        return 3;
    }
    let time = |t: libc::timeval| t.tv_sec as u64 * 1_000_000 + t.tv_usec as u64;
    let code = if libc::WIFEXITED(status) { libc::WEXITSTATUS(status) } else { -libc::WTERMSIG(status) };
    let text = format!("{code} {} {}", time(usage.ru_utime) + time(usage.ru_stime), usage.ru_maxrss);
    if fs::write(&args[0], text).is_err() { 3 } else { 0 }
}

struct Cost {
    code: i32,
    /// Processor time in seconds.
    time: f64,
    /// Highest resident memory in kB.
    memory: i64,
    /// Bytes written to standard output.
    out: u64,
}

fn cost(w: &Work, args: &[String], stdin: Option<&str>) -> Result<Cost, String> {
    let wrap = |e: std::io::Error| format!("{INCONCLUSIVE}cannot measure: {e}");
    let result = w.write("measured", b"");
    let mut cmd = Command::new(std::env::current_exe().map_err(wrap)?);
    prepare(w, &mut cmd);
    cmd.args(["--measure", &result]).arg(binary()).args(args);
    if contained() {
        cmd.uid(65534).gid(65534);
    }
    cmd.stdin(match stdin {
        Some(f) => fs::File::open(f).map_err(wrap)?.into(),
        None => Stdio::null(),
    });
    cmd.stdout(fs::File::create(w.dir.join(".out")).map_err(wrap)?);
    cmd.stderr(fs::File::create(w.dir.join(".err")).map_err(wrap)?);
    let st = cmd.status().map_err(wrap)?;
    let text = fs::read_to_string(&result).unwrap_or_default();
    let v: Vec<i64> = text.split(' ').filter_map(|x| x.parse().ok()).collect();
    if !st.success() || v.len() != 3 {
        return inconclusive(format!("no measurement: {st} {text:?}"));
    }
    if v[0] == -(libc::SIGKILL as i64) {
        return inconclusive("the program was killed");
    }
    Ok(Cost {
        code: v[0] as i32,
        time: v[1] as f64 / 1e6,
        memory: v[2],
        out: fs::metadata(w.dir.join(".out")).map_or(0, |m| m.len()),
    })
}

fn succeeded(w: &Work, c: &Cost, name: &str, args: &[String]) -> Verdict {
    if c.code == 0 || name == "check" && c.code == 1 {
        return Ok(());
    }
    let err = fs::read_to_string(w.dir.join(".err")).unwrap_or_default();
    Err(format!("exit status {}: {}; {}", c.code, err.trim(), cmdline(args)))
}

// ---------------------------------------------------------------- commands

/// A use of a command, and how many keys it may have to remember per record
/// (0: none).
struct Use {
    name: &'static str,
    args: Vec<String>,
    keys: usize,
}

const USES: usize = 34;

fn usage(w: &Work, k: usize) -> Use {
    let rules = |text: &str| vec!["-R".to_string(), w.write("rules.toml", text.as_bytes())];
    let u = |line: &str, keys: usize| {
        let mut it = line.split(' ');
        let name: &'static str = crate::cmds::READING
            .iter()
            .copied()
            .chain(["invalid"])
            .find(|n| line.starts_with(n))
            .expect("a command");
        it.next();
        // blanks inside an argument are written as _
        Use { name, args: it.map(|a| a.replace('_', " ")).collect(), keys }
    };
    let check = |text: &str, keys| {
        let mut x = u("check", keys);
        x.args = rules(text);
        x
    };
    match k {
        0 => u("concat", 0),
        1 => u("concat --unique", 1),
        2 => u("concat -u --unique-strategy hash", 1),
        3 => u("convert -t json", 0),
        4 => u("convert -t plain", 0),
        5 => u("convert -t xml", 0),
        6 => u("convert -t import", 0),
        7 => u("convert -t binary", 0),
        8 => u("count", 0),
        9 => u("count --subfields", 0),
        10 => u("explode main", 0),
        11 => u("explode local", 0),
        12 => u("explode copy", 0),
        13 => u("filter 003@?", 0),
        14 => u("filter -v 012A/*.a_=~_'zz$'", 0),
        15 => u("filter -k 003@,012A/* 012A/*.b_==_'q1'", 0),
        16 => u("frequency 002@.0", 0),
        17 => u("frequency 003@.0", 1),
        18 => u("frequency --unique 012A/*.b", 0),
        19 => u("hash", 0),
        20 => u("invalid", 0),
        21 => u("partition 002@.0 -o parts", 0),
        22 => u("print", 0),
        23 => u("print --translit nfd", 0),
        24 => u("sample --seed 7 5", 0),
        25 => u("select 003@.0,_012A/*{b,a}", 0),
        26 => u("select --unique 002@.0", 0),
        27 => u("select --unique 003@.0,_012A/*.b", 1),
        28 => u("slice --start 10", 0),
        29 => u("split 1000000 -o parts", 0),
        30 => u("describe -o table.csv", 0),
        31 => check(
            "[rule.F]\ncheck = \"filter\"\nfilter = \"002@.0 == 'T1' && 003@.0 =^ '77'\"\n\
             [rule.U]\ncheck = \"unicode\"\n\
             [rule.D]\ncheck = \"duplicates\"\nquery = \"012A/*.b\"\n",
            0,
        ),
        32 => check("[rule.L]\ncheck = \"link\"\nsource.path = \"012A/*.b\"\ntarget.path = \"003@.0\"\n", 2),
        _ => {
            let list = w.write("list.csv", b"type\nT1\nT2\n");
            check(
                &format!(
                    "[rule.A]\ncheck = \"allow\"\npath = \"002@.0\"\n\
                     list = {{ filename = \"{list}\", column = \"type\" }}\n"
                ),
                0,
            )
        }
    }
}

/// A record of about that many bytes.
fn record(out: &mut Vec<u8>, i: usize, size: usize) {
    if size == 0 {
        out.extend(format!("002@ \x1f0T{}\x1e003@ \x1f0{i}\x1e\n", i % 4).bytes());
        return;
    }
    let pad = size.saturating_sub(70);
    out.extend(format!("002@ \x1f0T{}\x1e003@ \x1f0{i}\x1e012A/01 \x1fa", i % 4).bytes());
    for k in 0..pad {
        out.push(b'a' + ((i * 7 + k * 13 + k / 26) % 26) as u8);
    }
    out.extend(format!("\x1fbq{}\x1e101@ \x1fa1\x1e203@/01 \x1f0{i}\x1e\n", i % 7).bytes());
}

fn records(n: usize, size: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(n * (size + 20));
    for i in 0..n {
        record(&mut out, i, size);
    }
    out
}

/// Puts the input somewhere; returns the arguments and standard input.
fn deliver(w: &Work, how: usize, name: &str, data: &[u8]) -> (Vec<String>, Option<String>) {
    match how {
        0 => (vec![w.write(&format!("{name}.dat"), data)], None),
        1 => (vec![w.write(&format!("{name}.dat.gz"), &gzip(data))], None),
        _ => (vec![], Some(w.write(&format!("{name}.dat"), data))),
    }
}

fn destination(r: &mut Rng, w: &Work, u: &Use) -> (Vec<String>, &'static str) {
    if u.args.iter().any(|a| a == "-o") {
        return (vec![], "own");
    }
    let gz = matches!(u.name, "explode" | "filter" | "sample" | "slice");
    match r.below(4) {
        0 if gz => (vec!["--gzip".into()], "gzip"),
        0 | 1 => (vec!["-o".into(), w.path("output.dat")], "file"),
        2 if u.name == "filter" || u.name == "concat" => (vec!["--tee".into(), w.path("output.dat")], "tee"),
        _ => (vec![], "stdout"),
    }
}

fn command(u: &Use, dest: &[String], input: &[String]) -> Vec<String> {
    let mut a = vec![u.name.to_string()];
    a.extend(u.args.iter().cloned());
    a.extend_from_slice(dest);
    a.extend_from_slice(input);
    a
}

fn clean(w: &Work) {
    let _ = fs::remove_dir_all(w.dir.join("parts"));
    for f in ["output.dat", "table.csv"] {
        let _ = fs::remove_file(w.dir.join(f));
    }
}

// ---------------------------------------------------------------- memory

fn memory(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    let u = usage(&w, c.idx as usize % USES);
    let how = c.r.below(3);
    let (dest, kind) = destination(&mut c.r, &w, &u);
    // small next to a single buffer, large next to what may vary
    let tiny = (c.idx as usize / USES).is_multiple_of(2);
    let (size, large) = match (u.keys, c.quick(), c.r.below(3)) {
        // many, so that few bytes for each are seen
        (0, true, _) if tiny => (0, 300_000),
        (0, false, _) if tiny => (0, 1_500_000),
        (0, true, 0) => (80, 45_000),
        (0, true, 1) => (300, 24_000),
        (0, true, _) => (3_000, 4_000),
        (0, false, 0) => (80, 400_000),
        (0, false, 1) => (400, 100_000),
        (0, false, _) => (20_000, 4_000),
        (_, true, _) => (2_000, 8_000),
        (_, false, _) => (4_000, 20_000),
    };
    let small = large / 16;
    let mut costs = vec![];
    for n in [small, large] {
        let data = records(n, size);
        let (input, stdin) = deliver(&w, how, "in", &data);
        let a = command(&u, &dest, &input);
        let x = cost(&w, &a, stdin.as_deref())?;
        succeeded(&w, &x, u.name, &a)?;
        clean(&w);
        costs.push((x, a, data.len()));
    }
    let growth = costs[1].0.memory - costs[0].0.memory;
    let more = (large - small) as i64;
    // keys with their tables, which double, while they are rebuilt
    let allowed = 3 * 1024 + u.keys as i64 * more * 512 / 1024;
    let bytes = (costs[1].2 - costs[0].2) as i64 / 1024;
    c.sig(&format!("{} {}/{kind}/{how}/{size}", u.name, u.args.first().map_or("", |a| a.as_str())));
    c.count("pairs of runs measured", 1);
    c.count("kB of input in larger runs", (costs[1].2 / 1024) as u64);
    c.sample(|| {
        json!({"command": cmdline(&costs[1].1), "records": [small, large], "input_kB": bytes,
               "memory_kB": [costs[0].0.memory, costs[1].0.memory]})
    });
    if growth > allowed {
        return Err(format!(
            "{growth} kB more memory ({} kB instead of {} kB) for {large} instead of {small} records of \
             {size} bytes ({bytes} kB more input, {allowed} kB allowed): {}",
            costs[1].0.memory, costs[0].0.memory, cmdline(&costs[1].1)
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- time

const SHAPES: [&str; 6] = ["records", "fields", "subfields", "value", "units", "copies"];

fn shaped(shape: &str, n: usize) -> Vec<u8> {
    let mut out = vec![];
    match shape {
        "records" => return records(n / 8, 150),
        "fields" => {
            out.extend(b"002@ \x1f0T1\x1e003@ \x1f01\x1e");
            for i in 0..n {
                out.extend(format!("012A/01 \x1faa{i}\x1fbq\x1e").bytes());
            }
        }
        "subfields" => {
            out.extend(b"002@ \x1f0T1\x1e003@ \x1f01\x1e012A/01 ");
            for i in 0..n {
                out.extend(format!("\x1fbv{i}").bytes());
            }
            out.push(0x1e);
        }
        "value" => {
            out.extend(b"002@ \x1f0T1\x1e003@ \x1f01\x1e012A/01 \x1fb");
            out.extend("wört er".repeat(n * 3).bytes());
            out.push(0x1e);
        }
        "units" => {
            out.extend(b"002@ \x1f0T1\x1e003@ \x1f01\x1e");
            for i in 0..n {
                out.extend(format!("101@ \x1fa{i}\x1e203@/01 \x1f0{i}\x1e").bytes());
            }
        }
        _ => {
            out.extend(b"002@ \x1f0T1\x1e003@ \x1f01\x1e101@ \x1fa1\x1e");
            for i in 0..n {
                out.extend(format!("203@/{:02} \x1f0{i}\x1e209A/{:02} \x1fx{i}\x1e", i % 90, i % 90).bytes());
            }
        }
    }
    out.push(b'\n');
    out
}

fn time(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    let k = c.idx as usize;
    let u = usage(&w, k % USES);
    let shape = SHAPES[(k / USES + c.r.below(2)) % SHAPES.len()];
    let n = if c.quick() { 60_000 } else { 150_000 };
    let (dest, kind) = destination(&mut c.r, &w, &u);
    let mut costs = vec![];
    for n in [0, n, 4 * n] {
        let data = if n == 0 { vec![] } else { shaped(shape, n) };
        let (input, stdin) = deliver(&w, 0, "in", &data);
        let a = command(&u, &dest, &input);
        let x = cost(&w, &a, stdin.as_deref())?;
        succeeded(&w, &x, u.name, &a)?;
        clean(&w);
        costs.push((x, a, data.len()));
    }
    let net = |i: usize| (costs[i].0.time - costs[0].0.time).max(0.0);
    let (one, four) = (net(1), net(2));
    c.sig(&format!("{} {}/{kind}/{shape}", u.name, u.args.first().map_or("", |a| a.as_str())));
    c.count("groups of runs timed", 1);
    c.sample(|| {
        json!({"command": cmdline(&costs[2].1), "shape": shape, "input_kB": [costs[1].2 / 1024, costs[2].2 / 1024],
               "output_kB": costs[2].0.out / 1024, "seconds": [one, four]})
    });
    if four > 9.0 * one + 0.5 {
        return Err(format!(
            "{four:.2} s of processor time for four times the input ({shape}, {} bytes) that takes {one:.2} s: {}",
            costs[2].2, cmdline(&costs[2].1)
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- promptness

fn spawn(w: &Work, args: &[String]) -> Result<Child, String> {
    let wrap = |e: std::io::Error| format!("{INCONCLUSIVE}cannot run pica: {e}");
    let mut cmd = Command::new(binary());
    prepare(w, &mut cmd);
    cmd.args(args).stdin(Stdio::piped()).stdout(Stdio::piped());
    cmd.stderr(fs::File::create(w.dir.join(".err")).map_err(wrap)?);
    if contained() {
        cmd.uid(65534).gid(65534);
    }
    cmd.spawn().map_err(wrap)
}

const PATIENCE: Duration = Duration::from_secs(40);

/// A command that has what it needs does not wait for more.
fn limit(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    const LIMITED: &[&str] = &[
        "check", "count", "describe", "explode", "filter", "frequency", "hash", "partition", "print", "sample",
        "select", "slice", "split",
    ];
    let name = LIMITED[c.idx as usize % LIMITED.len()];
    let k = loop {
        let k = c.r.below(USES);
        if usage(&w, k).name == name {
            break k;
        }
    };
    let mut u = usage(&w, k);
    if k == 15 || k == 14 {
        // selects all records
        u.args = words(&["012A/*.b =^ 'q'"]);
    }
    let lim = *c.r.pick(&[1, 2, 7, 60, 300]);
    // slice stops at the first record behind its range
    let beyond = name == "slice" && c.r.chance(2, 3);
    let mut fed = lim;
    if beyond {
        u.args = match c.r.below(3) {
            0 => words(&["--end", &lim.to_string()]),
            1 => words(&["--length", &lim.to_string()]),
            _ => words(&["--start", "1", "--end", &(lim + 1).to_string()]),
        };
        fed = if u.args.len() == 4 { lim + 2 } else { lim + 1 };
    } else {
        u.args.extend(["--limit".into(), lim.to_string()]);
        if name == "slice" {
            fed = lim + 10;
        }
    }
    let sometimes = c.r.chance(1, 3);
    if sometimes && !beyond {
        // every second record only
        u.args.extend(match name {
            "filter" => vec!["--and".to_string(), "002@.0 in ['T0', 'T2']".into()],
            _ => vec!["--where".to_string(), "002@.0 in ['T0', 'T2']".into()],
        });
        fed = fed * 2 - 1;
    }
    let (dest, kind) = destination(&mut c.r, &w, &u);
    let data = records(fed, 100);
    // as if the input ended there
    let whole = w.write("whole.dat", &data);
    let a = command(&u, &dest, &[whole]);
    let want = w.run(&a, b"")?;
    if want.code != 0 && !(name == "check" && want.code == 1) {
        return Err(format!("exit status {}: {}; {}", want.code, want.err.trim(), cmdline(&a)));
    }
    let files = |w: &Work| {
        let mut o = crate::records::tree(&w.dir.join("parts"));
        for f in ["output.dat", "table.csv"] {
            if let Ok(d) = w.read(f) {
                o.insert(f.into(), d);
            }
        }
        clean(w);
        o
    };
    let want_files = files(&w);
    c.sig(&format!("{name} {}/{kind}/{lim}/{beyond}{sometimes}", u.args.first().map_or("", |a| a.as_str())));
    if c.r.bool() {
        // further inputs are not looked at
        let first = w.write("first.dat", &data);
        let rest = match c.r.below(3) {
            0 => w.path("missing.dat"),
            1 => w.write("invalid.dat", b"no record\n"),
            _ => w.write("broken.dat.gz", b"\x1f\x8bnothing"),
        };
        let a = command(&u, &dest, &[first, rest]);
        let got = w.run(&a, b"")?;
        if got.code != want.code {
            return Err(format!(
                "exit status {} instead of {} although the limit is reached in the first file: {}; {}",
                got.code, want.code, got.err.trim(), cmdline(&a)
            ));
        }
        same_output(&got.out, &want.out, || cmdline(&a))?;
        if files(&w) != want_files {
            return Err(format!("other files were written: {}", cmdline(&a)));
        }
        c.count("runs that leave further inputs alone", 1);
        return Ok(());
    }
    let a = command(&u, &dest, &[]);
    let mut child = spawn(&w, &a)?;
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut out = vec![];
        let _ = stdout.read_to_end(&mut out);
        out
    });
    // the pipe stays open
    let sent = stdin.write_all(&data).and_then(|_| stdin.flush());
    let start = Instant::now();
    let mut status = None;
    while start.elapsed() < PATIENCE {
        if let Ok(Some(s)) = child.try_wait() {
            status = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    if status.is_none() {
        let _ = child.kill();
        let _ = child.wait();
    }
    drop(stdin);
    let out = reader.join().unwrap_or_default();
    let Some(status) = status else {
        return Err(format!("waits for more input although the limit is reached: {}", cmdline(&a)));
    };
    let err = fs::read_to_string(w.dir.join(".err")).unwrap_or_default();
    if status.code() != Some(want.code) {
        return Err(format!("ends with {status} instead of {} ({sent:?}): {}; {}", want.code, err.trim(), cmdline(&a)));
    }
    same_output(&out, &want.out, || cmdline(&a))?;
    if files(&w) != want_files {
        return Err(format!("other files were written: {}", cmdline(&a)));
    }
    c.count("runs that end before their input", 1);
    Ok(())
}

/// Output comes while input is read.
fn lag(ctx: &Ctx, c: &mut Case) -> Verdict {
    let w = Work::new(ctx, c);
    const FLOWING: &[usize] =
        &[0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 19, 20, 22, 23, 25, 27, 28, 33];
    let u = usage(&w, FLOWING[c.idx as usize % FLOWING.len()]);
    let n = if c.quick() { 12_000 } else { 100_000 };
    let mut data = records(n, 90);
    if u.name == "invalid" {
        // nothing but invalid lines
        data.retain(|b| *b != 0x1e);
    }
    let whole = w.write("whole.dat", &data);
    let want = w.run(&command(&u, &[], &[whole]), b"")?;
    if want.code != 0 && !(u.name == "check" && want.code == 1) {
        return Err(format!("exit status {}: {}", want.code, want.err.trim()));
    }
    let a = command(&u, &[], &[]);
    let mut child = spawn(&w, &a)?;
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let reader = std::thread::spawn(move || {
        let mut out = vec![];
        let mut buf = vec![0; 65536];
        loop {
            match stdout.read(&mut buf) {
                Ok(n) if n > 0 => {
                    out.extend_from_slice(&buf[..n]);
                    let _ = tx.send(out.len());
                }
                _ => return out,
            }
        }
    });
    let data2 = data.clone();
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(&data2);
        // open until it is dropped
        stdin
    });
    // what buffers may hold back
    const HELD: usize = 64 * 1024;
    let enough = want.out.len().saturating_sub(HELD);
    let start = Instant::now();
    let mut seen = 0;
    while seen < enough && start.elapsed() < PATIENCE {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(n) => seen = n,
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
    }
    if seen < enough {
        let _ = child.kill();
    }
    let stdin = writer.join();
    drop(stdin);
    let _ = child.wait();
    let out = reader.join().unwrap_or_default();
    if seen < enough {
        return Err(format!(
            "after {} bytes of input only {seen} of {} bytes of output had come: {}",
            data.len(), want.out.len(), cmdline(&a)
        ));
    }
    same_output(&out, &want.out, || cmdline(&a))?;
    c.sig(&format!("{} {}", u.name, u.args.first().map_or("", |a| a.as_str())));
    c.count("runs watched while they read", 1);
    c.count("bytes seen before the end of input", seen as u64);
    Ok(())
}

pub fn c37(ctx: &mut Ctx) {
    ctx.rule(
        "memory: a case runs one of 34 uses of 16 commands on some thousand records and on 16 times as many \
         (file, gzip or standard input; file, gzip, tee or standard output) and compares the highest \
         resident memory of the two processes: 3 MB more are allowed, and 512 bytes for each key the \
         command has to remember. time: the processor time for an input and for four times as many \
         records, fields, subfields, characters, local units or copies: up to nine times as much is allowed. \
         limit: standard input stays open after as many records as --limit (or the range of slice) needs, \
         or is followed by files that cannot be read: the command must end, with the output it has if the \
         input ends there. lag: standard input stays open after a megabyte; all output but 64 kB must have \
         come. A situation is the command with its output and, as it applies, source, sizes, shape or limit.",
    );
    ctx.assume("the peak of resident memory and the processor time that wait4 reports are those of the program");
    ctx.run("memory", 17, 680, |c| memory(ctx, c));
    ctx.run("time", 17, 680, |c| time(ctx, c));
    ctx.run("limit", 70, 4_000, |c| limit(ctx, c));
    ctx.run("lag", 22, 660, |c| lag(ctx, c));
    ctx.require("pairs of runs measured", 34);
    ctx.require("groups of runs timed", 34);
    ctx.require("runs that end before their input", 50);
    ctx.require("runs that leave further inputs alone", 50);
    ctx.require("runs watched while they read", 22);
}
