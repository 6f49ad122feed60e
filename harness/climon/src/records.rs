//! C13 to C19: commands that select, distribute and reduce records.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::Path as FsPath;

use model::expr::*;
use model::generate::{self, Opts};
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use serde_json::json;

use crate::cli::*;

fn opts(r: &mut Rng) -> Opts {
    Opts { utf8: r.chance(3, 4), max_fields: *r.pick(&[2, 4, 8]), ..Default::default() }
}

/// A large value or many records now and then.
pub fn lines(r: &mut Rng, max: usize) -> Vec<Vec<u8>> {
    let o = opts(r);
    let mut l = stream(r, max, &o);
    if r.chance(1, 800) {
        return lots(r, l);
    }
    if r.chance(1, 25) && !l.is_empty() {
        for _ in 0..r.range(100, 400) {
            let x = r.below(l.len().min(30));
            let x = l[x].clone();
            l.push(x);
        }
    }
    if r.chance(1, 25) {
        let mut rec = generate::record(r, &o);
        rec.fields.push(Fld {
            tag: *b"047I",
            occ: None,
            subs: vec![Sub { code: b'a', value: {
                let len = generate::edge(r, 12, 20);
                let clean = Opts { utf8: true, ..o.clone() };
                generate::long(r, &clean, len)
            } }],
        });
        let at = r.below(l.len() + 1);
        l.insert(at, rec.encode());
    }
    l
}

/// More than 65 536 small records.
pub fn lots(r: &mut Rng, mut l: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    for i in 0..r.range(65_530, 68_000) {
        let a = *r.pick(&["x", "y", "z"]);
        let t = *r.pick(&["012A", "013D"]);
        l.push(format!("003@ \u{1f}0{i}\u{1e}{t} \u{1f}a{a}\u{1e}\n").into_bytes());
    }
    l
}

/// Many small records, with and without PPN, most of them different and some repeated.
pub fn bulk(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = match r.below(4) {
        0 => r.range(66_000, 68_000),
        _ => generate::edge(r, 12, 15) + r.below(3_000),
    };
    let mut l: Vec<Vec<u8>> = vec![];
    let (gap, same) = (*r.pick(&[2, 20, 1_000_000]), *r.pick(&[2, 20, 1_000_000]));
    for i in 0..n {
        if i > 0 && r.chance(1, same) {
            let x = r.below(l.len());
            l.push(l[x].clone());
            continue;
        }
        let mut x = vec![];
        if !r.chance(1, gap) {
            x.extend(format!("003@ \u{1f}0{i}\u{1e}").into_bytes());
        }
        x.extend(format!("012A \u{1f}a{}\u{1e}\n", r.below(4 * n)).into_bytes());
        l.push(x);
    }
    if r.bool() {
        // with many fields or subfields
        let n = generate::edge(r, 14, 17);
        let x = if r.bool() {
            format!("003@ \u{1f}0wide\u{1e}{}\n", "013D \u{1f}x\u{1e}".repeat(n))
        } else {
            format!("003@ \u{1f}0wide\u{1e}013D {}\u{1e}\n", "\u{1f}x".repeat(n))
        };
        let at = r.below(l.len() + 1);
        l.insert(at, x.into_bytes());
    }
    l
}

/// The lines of a case: many in a workload named so.
pub fn case_lines(c: &mut Case, max: usize) -> Vec<Vec<u8>> {
    if c.name == "many" { bulk(&mut c.r) } else { lines(&mut c.r, max) }
}

pub type Predicates = Vec<(TagPat, OccPat)>;

/// A --keep or --discard list.
pub fn predicates(r: &mut Rng, recs: &[&Rec]) -> (Predicates, String) {
    let n = r.range(1, 3);
    let mut preds = vec![];
    let mut texts = vec![];
    for _ in 0..n {
        let (t, o) = if !recs.is_empty() && r.chance(4, 5) {
            let fs = r.pick(recs).fields.clone();
            let f = r.pick(&fs).clone();
            (TagPat::near(r, &f.tag, 30), OccPat::near(r, f.occ.as_deref()))
        } else {
            random_pattern(r)
        };
        texts.push(format!("{}{}", t.text(), o.text(r)));
        preds.push((t, o));
    }
    let sep = *r.pick(&[",", ", ", " , "]);
    let mut text = texts.join(sep);
    if r.chance(1, 10) {
        text.push(',');
    }
    (preds, text)
}

pub fn keep(rec: &Rec, p: &Predicates) -> Rec {
    if p.is_empty() {
        return rec.clone();
    }
    let f = rec.fields.iter().filter(|f| p.iter().any(|(t, o)| field_matches(t, o, f)));
    Rec { fields: f.cloned().collect() }
}

pub fn discard(rec: &Rec, p: &Predicates) -> Rec {
    let f = rec.fields.iter().filter(|f| !p.iter().any(|(t, o)| field_matches(t, o, f)));
    Rec { fields: f.cloned().collect() }
}

/// The bytes a reduced record is written as (nothing if it is empty).
pub fn enc(rec: &Rec) -> Vec<u8> {
    if rec.fields.is_empty() { vec![] } else { rec.encode() }
}

pub fn place(r: &mut Rng, cmd: &[&str], opts: Vec<String>, pos: Vec<String>) -> Vec<String> {
    // options before or after the positional arguments
    let mut a = words(cmd);
    if r.bool() {
        a.extend(opts);
        a.extend(pos);
    } else {
        a.extend(pos);
        a.extend(opts);
    }
    a
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica filter with a random expression and options (--and, --or, --not, \
         --invert-match, lists, --limit, --keep, --discard, -F, -i, threshold, skipped invalid \
         lines) over one to three inputs (files, gzip, standard input) and one destination \
         (stdout, file, gzip, append, tee) and compares every output byte with the model. A \
         situation is the set of options with destination, input layout and whether records \
         were selected.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let mut ls = case_lines(c, 10);
        let bad = if c.r.chance(1, 3) { c.r.range(1, 3) } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let inp = input(&mut c.r, &w, ls);
        let recs = inp.recs();
        let mut sel = Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true });
        if sel.cond.is_none() {
            let x = if recs.is_empty() { Rec { fields: vec![generate::ppn_field(&mut c.r)] } } else { (*c.r.pick(&recs)).clone() };
            sel.cond = Some(cond_text(&mut c.r, &x, 1));
        }
        sel.skip = bad > 0;
        let invert = c.r.chance(1, 3);
        let mut o = sel.args(&mut c.r, &w);
        assert_eq!(o[0], "--where");
        let expr = o[1].clone();
        o.drain(0..2);
        let mut preds = [vec![], vec![]];
        for (i, name) in ["keep", "discard"].iter().enumerate() {
            if c.r.chance(1, 5) {
                let (p, t) = predicates(&mut c.r, &recs);
                o.push(if c.r.bool() { format!("--{name}") } else { format!("-{}", &name[..1]) });
                o.push(t);
                preds[i] = p;
            }
        }
        if invert {
            o.push(if c.r.bool() { "-v" } else { "--invert-match" }.into());
        }
        let dest = Dest::random(&mut c.r, &w, DestKind { gzip: true, append: true, tee: true });
        o.extend(dest.args.clone());
        let from_file = c.r.chance(1, 4);
        let mut pos = vec![];
        if from_file {
            let p = w.write("expr.txt", expr.as_bytes());
            o.push(if c.r.bool() { "-F" } else { "--file" }.into());
            o.push(p);
        } else {
            pos.push(expr);
        }
        pos.extend(inp.args.clone());
        let args = place(&mut c.r, &["filter"], o, pos);
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let limit = if sel.limit > 0 { sel.limit } else { usize::MAX };
        let chosen: Vec<&Rec> = recs
            .iter()
            .copied()
            .filter(|r| sel.listed(r) && sel.cond_holds(r) != invert)
            .take(limit)
            .collect();
        let want: Vec<u8> =
            chosen.iter().flat_map(|r| enc(&keep(&discard(r, &preds[1]), &preds[0]))).collect();
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_output(&got, &want, info)?;
        c.count("records read", recs.len() as u64);
        c.count("records selected", chosen.len() as u64);
        c.count("bytes compared", want.len() as u64);
        c.sig(&format!(
            "{}/{invert}/{from_file}/{}/{}/{}{}/{}/{}",
            sel.sig(), dest.kind, inp.kind, preds[0].len(), preds[1].len(), bad, chosen.len().min(3)
        ));
        c.sample(|| json!({"command": cmdline(&args), "records": recs.len(), "selected": chosen.len()}));
        Ok(())
    };
    ctx.run("filter", 1_600, 60_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("records selected", 500);
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica concat, plain or with --unique under one of the strategies, over one \
         to three inputs with many repeated records and identifiers and one destination and \
         compares every output byte with the model. A situation is strategy, destination, \
         input layout, number of repetitions and of records without PPN.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let mut ls = case_lines(c, 14);
        // repetitions and near repetitions
        for _ in 0..c.r.below(8) {
            if ls.is_empty() {
                break;
            }
            let mut l = c.r.pick(&ls).clone();
            if c.r.bool()
                && let Some(mut rec) = Rec::decode(&l)
            {
                match c.r.below(3) {
                    0 => rec.fields.reverse(),
                    1 => rec.fields.push(generate::ppn_field(&mut c.r)),
                    _ => {
                        let i = c.r.below(rec.fields.len());
                        rec.fields.remove(i);
                    }
                }
                if !rec.fields.is_empty() {
                    l = rec.encode();
                }
            }
            let at = c.r.below(ls.len() + 1);
            ls.insert(at, l);
        }
        let bad = if c.r.chance(1, 4) { c.r.range(1, 3) } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let inp = input(&mut c.r, &w, ls);
        let recs = inp.recs();
        let mode = c.r.below(4);
        let mut o: Vec<String> = vec![];
        if mode > 0 {
            o.push(if c.r.bool() { "-u" } else { "--unique" }.into());
        }
        match mode {
            2 => o.extend(words(&["--unique-strategy", "idn"])),
            3 => o.extend(words(&["--unique-strategy", "hash"])),
            _ => {}
        }
        if bad > 0 {
            o.push(if c.r.bool() { "-s" } else { "--skip-invalid" }.into());
        }
        let dest = Dest::random(&mut c.r, &w, DestKind { gzip: false, append: true, tee: true });
        o.extend(dest.args.clone());
        let cmd = if c.r.chance(1, 4) { "cat" } else { "concat" };
        let args = place(&mut c.r, &[cmd], o, inp.args.clone());
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut none = 0;
        let kept: Vec<&Rec> = recs
            .iter()
            .copied()
            .filter(|r| match mode {
                0 => true,
                3 => seen.insert(r.encode()),
                _ => match r.ppn() {
                    Some(p) if !p.is_empty() => seen.insert(p.to_vec()),
                    _ => {
                        none += 1;
                        false
                    }
                },
            })
            .collect();
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_output(&got, &concat(&kept), info)?;
        c.count("records read", recs.len() as u64);
        c.count("records written", kept.len() as u64);
        c.count("repetitions left out", (recs.len() - kept.len()) as u64);
        c.sig(&format!(
            "{mode}/{}/{}/{}/{}/{bad}",
            dest.kind, inp.kind, (recs.len() - kept.len()).min(4), none.min(2)
        ));
        c.sample(|| json!({"command": cmdline(&args), "read": recs.len(), "written": kept.len()}));
        Ok(())
    };
    ctx.run("concat", 1_600, 60_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("repetitions left out", 500);
}

/// All files below a directory with their contents.
pub fn tree(dir: &FsPath) -> BTreeMap<String, Vec<u8>> {
    fn walk(dir: &FsPath, base: &FsPath, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, base, out);
            } else {
                let name = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                out.insert(name, fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

/// The files of the scratch directory that are not the harness's own.
fn outside(w: &Work, outdir: &str) -> BTreeMap<String, Vec<u8>> {
    let mut t = tree(&w.dir);
    t.retain(|k, _| !matches!(&k[..], ".in" | ".out" | ".err") && !k.starts_with(&format!("{outdir}/")));
    t
}

fn is_gz(name: &str) -> bool {
    FsPath::new(name).extension().is_some_and(|e| e == "gz")
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica split with a random chunk size, template, output directory (present, \
         missing, with older files), gzip option, selection and limit and compares names and \
         contents of all files with the model. A situation is the options, the number of \
         chunks and whether the last chunk is full.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let mut ls = case_lines(c, 14);
        if c.name != "many" {
            ls.truncate(1_000);
        }
        let bad = if c.r.chance(1, 4) { c.r.range(1, 3) } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let inp = input(&mut c.r, &w, ls);
        let recs = inp.recs();
        let mut sel = Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true });
        sel.skip = bad > 0;
        let want = sel.select(&recs);
        let size = match c.r.below(6) {
            0..4 if c.name == "many" => generate::edge(&mut c.r, 10, 16),
            0 => 1 + want.len() / 2_000,
            1 => want.len().max(1),
            2 => want.len() + 1,
            3 => 4_294_967_295,
            _ => c.r.range(1 + want.len() / 2_000, want.len().max(1)),
        };
        let mut o = sel.args(&mut c.r, &w);
        let gz = c.r.chance(1, 4);
        if gz {
            o.push(if c.r.bool() { "-g" } else { "--gzip" }.into());
        }
        let template = if c.r.bool() {
            let t = *c.r.pick(&["{}", "a{}.dat", "{}.dat.gz", "x{}-{}.pica", "{}{}", "ü {}.d", "CHUNK_{}.gz", ".{}"]);
            o.extend([if c.r.chance(9, 10) { "--template" } else { "--template" }.into(), t.into()]);
            t
        } else if gz {
            "{}.dat.gz"
        } else {
            "{}.dat"
        };
        let dir = *c.r.pick(&["o", "o/p/q", "o"]);
        let mut older = vec![];
        if dir == "o" && c.r.bool() {
            w.write("o/keep.txt", b"older");
            older.push("keep.txt".to_string());
            // a chunk of an earlier run
            w.write(&format!("o/{}", template.replace("{}", "0")), &[b'z'; 3000]);
        }
        o.push(if c.r.bool() { "-o" } else { "--outdir" }.into());
        o.push(w.path(dir));
        let mut pos = vec![size.to_string()];
        pos.extend(inp.args.clone());
        let args = place(&mut c.r, &["split"], o, pos);
        let before = outside(&w, "o");
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        if outside(&w, "o") != before {
            return Err(format!("files outside of the output directory changed; {}", info()));
        }
        let mut chunks: Vec<Vec<u8>> = want.chunks(size).map(concat).collect();
        if chunks.is_empty() {
            chunks.push(vec![]);
        }
        let got = tree(&w.dir.join(dir));
        let mut names: Vec<String> = (0..chunks.len()).map(|i| template.replace("{}", &i.to_string())).collect();
        for (name, chunk) in names.iter().zip(&chunks) {
            let Some(data) = got.get(name) else {
                return Err(format!("file {name} is missing, there are {:?}; {}", got.keys(), info()));
            };
            let data = if gz || is_gz(name) { gunzip(data)? } else { data.clone() };
            same_output(&data, chunk, || format!("file {name}; {}", info()))?;
        }
        names.extend(older);
        if got.len() != names.len() {
            return Err(format!("there are files {:?}, expected {names:?}; {}", got.keys(), info()));
        }
        c.count("records read", recs.len() as u64);
        c.count("records in chunks", want.len() as u64);
        c.count("chunks compared", chunks.len() as u64);
        c.sig(&format!(
            "{gz}/{template}/{dir}/{}/{}/{}",
            sel.sig(), chunks.len().min(6), want.len() % size == 0
        ));
        c.sample(|| json!({"command": cmdline(&args), "selected": want.len(), "chunks": chunks.len()}));
        Ok(())
    };
    ctx.run("split", 1_300, 50_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.require("chunks compared", 500);
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica partition by a random path over records whose values repeat, contain \
         separators of paths, dots, NUL or nothing, with random template, output directory, \
         gzip option, selection and limit, and compares names and contents of all files, inside \
         and outside of the output directory, with the model; values that cannot be part of a \
         file name must lead to an error. A situation is the options, the number of files and \
         the kind of values.",
    );
    ctx.run("partition", 1_500, 60_000, |c| {
        let w = Work::new(ctx, c);
        let mut o = opts(&mut c.r);
        o.max_fields = 4;
        let mut ls = stream(&mut c.r, 14, &o);
        let hostile = contained() && c.r.chance(1, 3);
        let tame = !hostile && c.r.chance(2, 3);
        let mut recs0: Vec<Rec> = ls.iter().map(|l| Rec::decode(l).unwrap()).collect();
        for rec in &mut recs0 {
            if c.r.chance(1, 2) {
                rec.fields.push(Fld {
                    tag: *b"012A",
                    occ: None,
                    subs: (0..c.r.range(1, 3))
                        .map(|_| Sub {
                            code: b'a',
                            value: c
                                .r
                                .pick::<&str>(if hostile {
                                    &["x", "..", ".", "", "/etc/x", "../x", "../../x", "a/b", "a\u{0}b", "x.gz", "..x", "x/", "é", "\\", "-"]
                                } else {
                                    &["x", "y", "X", "é", "e\u{301}", "a b", "-", "x.gz", "z"]
                                })
                                .as_bytes()
                                .to_vec(),
                        })
                        .collect(),
                });
            }
        }
        ls = recs0.iter().map(|r| r.encode()).collect();
        let many = c.r.chance(1, 60);
        if many {
            for i in 0..600 {
                let v = format!("{}", i * 7919 % 601);
                ls.push(format!("003@ \x1f0{i}\x1e012A \x1fa{v}\x1fax\x1e\n").into_bytes());
            }
        }
        let wide = !hostile && !many && c.r.chance(1, 15);
        if wide {
            // a record that belongs into many files
            let n = generate::edge(&mut c.r, 3, 8);
            let mut x = b"003@ \x1f0wide\x1e".to_vec();
            for k in 0..n {
                let l = if k == 0 || k % 5 == 0 { "\x1e012A " } else { "" };
                x.extend(format!("{}\x1fav{}", if k == 0 { "012A " } else { l }, k * 7 % n).into_bytes());
            }
            x.extend(b"\x1e\n");
            let at = c.r.below(ls.len() + 1);
            ls.insert(at, x);
            c.count("records with many values", 1);
        }
        let many = many || wide;
        let bad = if c.r.chance(1, 5) { c.r.range(1, 3) } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let inp = input(&mut c.r, &w, ls);
        let recs = inp.recs();
        let mut sel = Sel::random(&mut c.r, &recs, SelKind { lists: true, limit: true });
        sel.skip = bad > 0;
        let (path, ptext) = if many || tame || hostile && c.r.chance(2, 3) {
            let p = model::query::Path {
                tag: TagPat::lit("012A"),
                occ: OccPat::None,
                codes: vec![Codes::One(b'a')],
                cond: None,
            };
            (p, "012A.a".to_string())
        } else {
            let x = if recs.is_empty() { None } else { Some(*c.r.pick(&recs)) };
            let simple = c.r.bool();
            path_text(&mut c.r, x, simple)
        };
        let mut o = sel.args(&mut c.r, &w);
        let gz = c.r.chance(1, 4);
        if gz {
            o.push(if c.r.bool() { "-g" } else { "--gzip" }.into());
        }
        let template = if c.r.bool() {
            let t = *c.r.pick(&["{}", "a{}.dat", "{}.dat.gz", "{}{}", "sub/{}.d", "{}/x.dat", "all.dat", "v-{}"]);
            o.extend([if c.r.bool() { "-t" } else { "--template" }.into(), t.into()]);
            t
        } else if gz {
            "{}.dat.gz"
        } else {
            "{}.dat"
        };
        w.write("o/sub/older", b"older");
        w.write("o/x/older", b"older");
        w.write("o/x.dat", &[b'z'; 3000]);
        w.write("secret", b"secret");
        o.push(if c.r.bool() { "-o" } else { "--outdir" }.into());
        o.push(w.path("o"));
        let mut pos = vec![ptext];
        pos.extend(inp.args.clone());
        let args = place(&mut c.r, &["partition"], o, pos);
        let before = outside(&w, "o");
        let old = tree(&w.dir.join("o"));
        // the model
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut error = None;
        let limit = if sel.limit > 0 { sel.limit } else { usize::MAX };
        let mut n = 0;
        'records: for rec in recs.iter().filter(|r| sel.holds(r)) {
            let mut names = vec![];
            for v in path.values(rec, &sel.mopts()) {
                let v = String::from_utf8_lossy(&v).into_owned();
                let name = template.replace("{}", &v);
                let up = |s: &str| s.split('/').filter(|p| *p == "..").count();
                if template.contains("{}")
                    && (v.contains('/')
                        || up(&name) > 0
                        || name.starts_with('/')
                        || name.contains('\0'))
                {
                    error = Some(v);
                    break 'records;
                }
                names.push(name);
            }
            names.sort();
            names.dedup();
            if names.is_empty() {
                continue;
            }
            for name in names {
                // a directory, or in a missing directory
                let p = w.dir.join("o").join(&name);
                let long = name.split('/').any(|p| p.len() > 255);
                if long || name.is_empty() || p.is_dir() || p.parent().is_none_or(|d| !d.is_dir()) || name.ends_with("/.") || name == "." {
                    error = Some(name);
                    break 'records;
                }
                let parts: Vec<&str> = name.split('/').filter(|p| *p != ".").collect();
                want.entry(parts.join("/")).or_default().extend(rec.encode());
            }
            n += 1;
            if n >= limit {
                break;
            }
        }
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        if outside(&w, "o") != before {
            return Err(format!("files outside of the output directory changed; {}", info()));
        }
        c.sig(&format!(
            "{gz}/{template}/{hostile}/{}/{}/{}",
            error.is_some(), sel.sig(), want.len().min(6)
        ));
        c.sample(|| json!({"command": cmdline(&args), "files": want.keys().take(12).collect::<Vec<_>>(), "unusable": error}));
        if let Some(v) = error {
            c.count("unusable values", 1);
            return out.failed().map_err(|e| format!("value {v:?}: {e}; {}", info()));
        }
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = tree(&w.dir.join("o"));
        for (name, data) in &want {
            let Some(g) = got.get(name) else {
                return Err(format!("file {name:?} is missing, there are {:?}; {}", got.keys(), info()));
            };
            let g = if gz || is_gz(name) { gunzip(g)? } else { g.clone() };
            same_output(&g, data, || format!("file {name:?}; {}", info()))?;
        }
        for (name, data) in &got {
            if !want.contains_key(name) && old.get(name) != Some(data) {
                return Err(format!("file {name:?} should not be written; {}", info()));
            }
        }
        c.count("files compared", want.len() as u64);
        c.count("records partitioned", n as u64);
        Ok(())
    });
    ctx.require("files compared", 500);
    ctx.require("unusable values", 20);
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica slice with random, extreme and missing bounds, selection, limit, \
         skipped invalid lines in all places, several inputs and one destination and compares \
         every output byte with the model; a second workload cuts a stream into adjacent slices \
         and concatenates them. A situation is the kind of bounds relative to the stream with \
         the other options.",
    );
    let body = |c: &mut Case| -> Verdict {
        let w = Work::new(ctx, c);
        let mut ls = case_lines(c, 12);
        let bad = if c.r.bool() { c.r.range(1, 4) } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let inp = input(&mut c.r, &w, ls);
        let recs = inp.recs();
        let mut sel = Sel::random(&mut c.r, &recs, SelKind { lists: false, limit: true });
        sel.skip = bad > 0;
        let n = inp.lines.len();
        let bound = |r: &mut Rng| match r.below(8) {
            0 => 0,
            1 => n as u64,
            2 => u64::MAX,
            3 => u64::MAX - r.below(3) as u64,
            4 => n as u64 + 1,
            _ => r.below(n + 1) as u64,
        };
        let start = if c.r.chance(3, 4) { bound(&mut c.r) } else { 0 };
        let (mut end, mut length) = (0, 0);
        match c.r.below(5) {
            0 => {}
            1 | 2 => end = bound(&mut c.r),
            _ => length = bound(&mut c.r),
        }
        let mut o = sel.args(&mut c.r, &w);
        if start > 0 || c.r.bool() {
            o.extend(["--start".into(), start.to_string()]);
        }
        if end > 0 {
            o.extend(["--end".into(), end.to_string()]);
        }
        if length > 0 {
            o.extend(["--length".into(), length.to_string()]);
        }
        let dest = Dest::random(&mut c.r, &w, DestKind { gzip: true, append: true, tee: false });
        o.extend(dest.args.clone());
        let args = place(&mut c.r, &["slice"], o, inp.args.clone());
        let limit = if sel.limit > 0 { sel.limit } else { usize::MAX };
        let stop = if end > 0 { end } else { u64::MAX };
        let most = if length > 0 { length } else { u64::MAX };
        let mut want = vec![];
        let mut written = 0usize;
        // positions count selected records and skipped lines
        for (pos, l) in
            (0u64..).zip(inp.lines.iter().filter(|l| l.rec.as_ref().is_none_or(|r| sel.holds(r))))
        {
            if l.rec.is_some()
                && pos >= start
                && pos < stop
                && (written as u64) < most
                && written < limit
            {
                want.extend(&l.data);
                written += 1;
            }
        }
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_output(&got, &want, info)?;
        c.count("records read", recs.len() as u64);
        c.count("records in the slice", written as u64);
        let class = |v: u64| match v {
            0 => 0,
            v if v < n as u64 => 1,
            v if v == n as u64 => 2,
            v if v < 1 << 40 => 3,
            _ => 4,
        };
        c.sig(&format!(
            "{}/{}/{}/{bad}/{}/{}/{}",
            class(start), class(end), class(length), sel.sig(), dest.kind, written.min(3)
        ));
        c.sample(|| json!({"command": cmdline(&args), "lines": n, "written": written}));
        Ok(())
    };
    ctx.run("slice", 1_600, 60_000, &body);
    ctx.run("many", 4, 60, &body);
    ctx.run("adjacent", 150, 6_000, |c| {
        let w = Work::new(ctx, c);
        let mut ls = lines(&mut c.r, 12);
        let bad = c.r.below(3);
        spoil(&mut c.r, &mut ls, bad);
        let inp = input(&mut c.r, &w, ls);
        let n = inp.lines.len();
        let mut cuts: Vec<usize> = (0..c.r.range(1, 4)).map(|_| c.r.range(1, n + 2)).collect();
        cuts.sort();
        cuts.dedup();
        let mut all = vec![];
        let mut from = 0;
        for e in cuts.iter().copied().chain([0]) {
            let mut args = words(&["slice", "-s", "--start", &from.to_string(), "--end", &e.to_string()]);
            args.extend(inp.args.clone());
            let out = w.run_with(&args, &inp.setup())?;
            all.extend_from_slice(out.ok().map_err(|e| format!("{e}; {}", cmdline(&args)))?);
            from = e;
        }
        same_output(&all, &concat(&inp.recs()), || {
            format!("adjacent slices at {cuts:?} of{}", inp.describe())
        })?;
        c.count("slices concatenated", cuts.len() as u64 + 1);
        c.sig(&format!("adjacent/{}/{bad}", cuts.len()));
        Ok(())
    });
    ctx.require("records in the slice", 500);
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica sample with random size, seed, selection, limit and destination over \
         a stream of pairwise different records, twice with the same seed (from other files), \
         and checks that the output consists of min(k, n) different input records, all of them \
         for k >= n, and is reproduced. A second workload runs many seeds and records which \
         input positions are ever selected. A situation is sizes, options and destination.",
    );
    ctx.run("sample", 900, 40_000, |c| {
        let w = Work::new(ctx, c);
        let mut ls = lines(&mut c.r, 14);
        ls.truncate(1_000);
        // all records are different, or some are equal
        let repeated = !ls.is_empty() && c.r.chance(1, 3);
        if repeated {
            for _ in 0..c.r.range(1, 20) {
                let l = c.r.pick(&ls[..ls.len().min(4)]).clone();
                let at = c.r.below(ls.len() + 1);
                ls.insert(at, l);
            }
        }
        for (i, l) in ls.iter_mut().enumerate() {
            if repeated {
                break;
            }
            let mut rec = Rec::decode(l).unwrap();
            rec.fields.push(Fld {
                tag: *b"299Z",
                occ: None,
                subs: vec![Sub { code: b'x', value: i.to_string().into_bytes() }],
            });
            *l = rec.encode();
        }
        let bad = if c.r.chance(1, 4) { c.r.range(1, 3) } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let all = ls.clone();
        let inp = input_as(&mut c.r, &w, ls, "in");
        let recs = inp.recs();
        let mut sel = Sel::random(&mut c.r, &recs, SelKind { lists: false, limit: true });
        sel.skip = bad > 0;
        let pool = sel.select(&recs);
        let k = match c.r.below(5) {
            0 => 1,
            1 => pool.len().max(1),
            2 => pool.len() + 1,
            _ => c.r.range(1, pool.len() + 1),
        };
        let mut o = sel.args(&mut c.r, &w);
        let seed = c.r.chance(4, 5).then(|| c.r.u64() >> (c.r.below(64)));
        if let Some(s) = seed {
            o.extend(["--seed".into(), s.to_string()]);
        }
        let plain = o.clone();
        let dest = Dest::random(&mut c.r, &w, DestKind { gzip: true, append: false, tee: false });
        o.extend(dest.args.clone());
        let mut pos = vec![k.to_string()];
        pos.extend(inp.args.clone());
        let args = place(&mut c.r, &["sample"], o, pos);
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        let encs: Vec<Vec<u8>> = pool.iter().map(|r| r.encode()).collect();
        let mut used = HashSet::new();
        for l in got.split_inclusive(|b| *b == b'\n') {
            let mut same = (0..encs.len()).filter(|i| encs[*i] == l).peekable();
            if same.peek().is_none() {
                return Err(format!("'{}' is no selected record; {}", show(l), info()));
            }
            let Some(i) = same.find(|i| !used.contains(i)) else {
                return Err(format!("'{}' is in the sample too often; {}", show(l), info()));
            };
            used.insert(i);
        }
        if used.len() != k.min(pool.len()) {
            return Err(format!("{} records instead of {}; {}", used.len(), k.min(pool.len()), info()));
        }
        if seed.is_some() {
            let inp2 = input_as(&mut c.r, &w, all, "again");
            let mut args2 = words(&["sample"]);
            args2.extend(plain);
            args2.push(k.to_string());
            args2.extend(inp2.args.clone());
            let out2 = w.run_with(&args2, &inp2.setup())?;
            same_output(out2.ok()?, &got, || format!("the same seed again; {}", info()))?;
            c.count("samples reproduced", 1);
        }
        c.count("records sampled", used.len() as u64);
        c.sig(&format!("{}/{}/{}/{}/{}", pool.len().min(8), k.min(8), seed.is_some(), sel.sig(), dest.kind));
        c.sample(|| json!({"command": cmdline(&args), "pool": pool.len(), "sample": used.len()}));
        Ok(())
    });
    ctx.run("large", 2, 20, |c| {
        let w = Work::new(ctx, c);
        let n = c.r.range(65_530, 70_000);
        let k = *c.r.pick(&[65_535, 65_536, 65_537, 65_600, n - 1, n, n + 1, 100_000]);
        let data: Vec<u8> =
            (0..n).flat_map(|i| format!("003@ \u{1f}0{i}\u{1e}\n").into_bytes()).collect();
        let f = w.write("a.dat", &data);
        let args = words(&["sample", "--seed", &c.r.below(1000).to_string(), &k.to_string(), &f]);
        let out = w.run(&args, b"")?;
        let mut used = vec![false; n];
        let mut m = 0;
        for l in out.ok()?.split_inclusive(|b| *b == b'\n') {
            let rec = Rec::decode(l).ok_or("not a record")?;
            let i: usize = std::str::from_utf8(rec.ppn().unwrap_or_default()).unwrap().parse().map_err(|_| "PPN")?;
            if std::mem::replace(&mut used[i], true) {
                return Err(format!("record {i} is in the sample twice; {}", cmdline(&args)));
            }
            m += 1;
        }
        c.count("records sampled", m as u64);
        c.sig(&format!("large/{n}/{k}"));
        if m != k.min(n) {
            return Err(format!("{m} records instead of {} of {n}; {}", k.min(n), cmdline(&args)));
        }
        Ok(())
    });
    // which positions are ever selected
    let sizes: [(usize, usize, u64); 6] = [(1, 2, 40), (1, 4, 120), (2, 3, 60), (2, 6, 120), (3, 9, 150), (5, 7, 60)];
    ctx.run("positions", sizes.len() as u64, sizes.len() as u64, |c| {
        let w = Work::new(ctx, c);
        let (k, n, seeds) = sizes[c.idx as usize];
        let mut data = vec![];
        for i in 0..n {
            data.extend(format!("003@ \x1f0{i}\x1e\n").into_bytes());
        }
        let f = w.write("a.dat", &data);
        let mut hits = vec![0u32; n];
        for seed in 0..seeds {
            let seed = ctx.seed.wrapping_mul(1000) + seed;
            let args = words(&["sample", "--seed", &seed.to_string(), &k.to_string(), &f]);
            let out = w.run(&args, b"")?;
            for l in out.ok()?.split_inclusive(|b| *b == b'\n') {
                let rec = Rec::decode(l).ok_or("not a record")?;
                let i: usize = std::str::from_utf8(rec.ppn().unwrap()).unwrap().parse().unwrap();
                hits[i] += 1;
            }
        }
        c.count("seeds tried", seeds);
        c.sig(&format!("positions/{k}/{n}/{hits:?}"));
        c.sample(|| json!({"k": k, "n": n, "seeds": seeds, "selected": hits}));
        for (i, h) in hits.iter().enumerate() {
            if *h == 0 {
                let msg = format!("record {i} of {n} is never in a sample of {k} ({seeds} seeds: {hits:?})");
                if k == 1 && i == 0 {
                    ctx.finding("k1-first", &msg);
                } else {
                    return Err(msg);
                }
            }
        }
        Ok(())
    });
    ctx.require("records sampled", 500);
    ctx.require("seeds tried", 300);
}

/// Runs of level-1 fields with what follows them.
fn units(rec: &Rec) -> (Vec<Fld>, Vec<(Vec<Fld>, Vec<Fld>)>) {
    let main: Vec<Fld> = rec.fields.iter().filter(|f| f.level() == 0).cloned().collect();
    let mut units: Vec<(Vec<Fld>, Vec<Fld>)> = vec![];
    for f in rec.fields.iter().filter(|f| f.level() > 0) {
        let new = match units.last() {
            None => true,
            Some((_, copies)) => f.level() == 1 && !copies.is_empty(),
        };
        if new {
            units.push((vec![], vec![]));
        }
        let u = units.last_mut().unwrap();
        if f.level() == 1 { u.0.push(f.clone()) } else { u.1.push(f.clone()) }
    }
    (main, units)
}

fn explode(rec: &Rec, level: &str) -> Vec<Rec> {
    let (main, units) = units(rec);
    match level {
        "main" => vec![rec.clone()],
        "local" => units
            .into_iter()
            .map(|(l, c)| Rec { fields: [main.clone(), l, c].concat() })
            .collect(),
        _ => units
            .into_iter()
            .flat_map(|(l, c)| {
                c.chunk_by(|a, b| a.occ == b.occ)
                    .map(|c| Rec { fields: [main.clone(), l.clone(), c.to_vec()].concat() })
                    .collect::<Vec<_>>()
            })
            .collect(),
    }
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule(
        "A case runs pica explode with a level, random selection, --keep, --discard, limit and \
         destination over records with title fields followed by any interleaving of level-1 and \
         level-2 fields (equal, missing, 00 and changing occurrences) and compares every output \
         byte with the model. A situation is the sequence of levels and occurrences of the \
         first record with the level and options.",
    );
    ctx.run("explode", 1_800, 70_000, |c| {
        let w = Work::new(ctx, c);
        let o = opts(&mut c.r);
        let mut ls = vec![];
        for _ in 0..c.r.range(1, 4) {
            let mut fields: Vec<Fld> = vec![];
            if c.r.chance(9, 10) {
                fields.push(generate::ppn_field(&mut c.r));
            }
            for _ in 0..c.r.below(3) {
                let mut f = generate::field(&mut c.r, &o);
                f.tag[0] = b'0';
                fields.push(f);
            }
            let occs: [Option<&[u8]>; 6] = [None, Some(b"00"), Some(b"01"), Some(b"02"), Some(b"010"), Some(b"001")];
            let mut occ = *c.r.pick(&occs);
            let n = match c.r.below(40) {
                0 => c.r.below(60),
                1 => generate::edge(&mut c.r, 6, 9),
                _ => c.r.below(10),
            };
            // long units, one long copy or anything
            let (local, change) = *c.r.pick(&[(4, 3), (4, 3), (4, 3), (200, 200), (200, 3), (1, 3)]);
            for _ in 0..n {
                let mut f = generate::field(&mut c.r, &o);
                f.tag[0] = if c.r.chance(1, local) { b'1' } else { b'2' };
                if c.r.chance(1, change) {
                    occ = *c.r.pick(&occs);
                }
                if f.tag[0] == b'2' || c.r.bool() {
                    f.occ = occ.map(|o| o.to_vec());
                }
                fields.push(f);
            }
            if fields.is_empty() {
                fields.push(generate::ppn_field(&mut c.r));
            }
            ls.push(Rec { fields }.encode());
        }
        let bad = if c.r.chance(1, 6) { 1 } else { 0 };
        spoil(&mut c.r, &mut ls, bad);
        let inp = input(&mut c.r, &w, ls);
        let recs = inp.recs();
        // level-0 fields only at the beginning
        if recs.iter().any(|r| !r.fields.is_sorted_by_key(|f| f.level() > 0)) {
            return Ok(());
        }
        let level = *c.r.pick(&["main", "local", "copy", "copy"]);
        let parts: Vec<Rec> = recs.iter().flat_map(|r| explode(r, level)).collect();
        let refs: Vec<&Rec> = parts.iter().collect();
        let mut sel = if c.r.bool() {
            Sel::random(&mut c.r, &refs, SelKind { lists: true, limit: true })
        } else {
            Sel::all()
        };
        sel.skip = bad > 0;
        let mut o = sel.args(&mut c.r, &w);
        let mut preds = [vec![], vec![]];
        for (i, name) in ["keep", "discard"].iter().enumerate() {
            if c.r.chance(1, 6) {
                let (p, t) = predicates(&mut c.r, &recs);
                o.push(if c.r.bool() { format!("--{name}") } else { format!("-{}", &name[..1]) });
                o.push(t);
                preds[i] = p;
            }
        }
        let dest = Dest::random(&mut c.r, &w, DestKind { gzip: true, append: false, tee: false });
        o.extend(dest.args.clone());
        let mut pos = vec![level.to_string()];
        pos.extend(inp.args.clone());
        let args = place(&mut c.r, &["explode"], o, pos);
        let out = w.run_with(&args, &inp.setup())?;
        let info = || format!("{}{}", cmdline(&args), inp.describe());
        out.ok().map_err(|e| format!("{e}; {}", info()))?;
        let chosen = sel.select(&refs);
        let want: Vec<u8> =
            chosen.iter().flat_map(|r| enc(&discard(&keep(r, &preds[0]), &preds[1]))).collect();
        let got = dest.result(&w, &out).map_err(|e| format!("{e}; {}", info()))?;
        same_output(&got, &want, info)?;
        c.count("records exploded", recs.len() as u64);
        c.count("parts compared", chosen.len() as u64);
        let shape: String = recs.first().map_or(String::new(), |r| {
            r.fields
                .iter()
                .filter(|f| f.level() > 0)
                .take(6)
                .map(|f| format!("{}{}", f.level(), f.occ.as_ref().map_or(0, |o| o.len() + (o[o.len() - 1] & 3) as usize)))
                .collect()
        });
        c.sig(&format!("{level}/{shape}/{}/{}", sel.sig(), chosen.len().min(4)));
        c.sample(|| json!({"command": cmdline(&args), "records": recs.len(), "parts": parts.len(), "shape": shape}));
        Ok(())
    });
    ctx.require("parts compared", 1_000);
}
