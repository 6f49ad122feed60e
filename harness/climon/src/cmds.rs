//! Random uses of all commands.
use std::collections::BTreeMap;

use model::expr::*;
use model::generate;
use model::query::QOpts;
use model::rec::*;
use model::rng::Rng;

use crate::checks;
use crate::cli::*;
use crate::records::{place, predicates, tree};
use crate::tables::query_for;

/// Commands that read records and select some of them.
pub const SELECTING: &[&str] = &[
    "check", "count", "describe", "explode", "filter", "frequency", "hash", "partition", "print", "sample",
    "select", "slice", "split",
];

/// Commands that read records.
pub const READING: &[&str] = &[
    "check", "concat", "convert", "count", "describe", "explode", "filter", "frequency", "hash", "partition",
    "print", "sample", "select", "slice", "split",
];

#[derive(Clone)]
/// A use of a command without its inputs, selection and output.
pub struct Cmd {
    pub name: &'static str,
    pub opts: Vec<String>,
    /// Positional arguments before the inputs.
    pub pos: Vec<String>,
    /// Usual endings of output files.
    ends: &'static [&'static str],
    pub dir: bool,
    gzip: bool,
    append: bool,
    tee: bool,
    /// Texts of written files, for messages.
    pub note: String,
}

const RULES: [&str; 9] =
    ["allow", "datetime", "duplicates", "filter", "isni", "iso639-2b", "jelc", "link", "unicode"];

fn flag(r: &mut Rng, o: &mut Vec<String>, names: &[&str], num: usize, den: usize) -> bool {
    let yes = r.chance(num, den);
    if yes {
        o.push(r.pick::<&str>(names).to_string());
    }
    yes
}

impl Cmd {
    /// The bare command.
    pub fn none(name: &'static str) -> Cmd {
        Cmd {
            name,
            opts: vec![],
            pos: vec![],
            ends: &["dat"],
            dir: false,
            gzip: false,
            append: false,
            tee: false,
            note: String::new(),
        }
    }

    /// A random use of the command; `m` are the matcher options of the run.
    pub fn random(r: &mut Rng, w: &Work, name: &'static str, recs: &[&Rec], m: MOpts) -> Cmd {
        let mut c = Cmd {
            name,
            opts: vec![],
            pos: vec![],
            ends: &["dat", "txt", "dat.gz"],
            dir: false,
            gzip: false,
            append: false,
            tee: false,
            note: String::new(),
        };
        let o = &mut c.opts;
        let some = Rec { fields: vec![generate::ppn_field(r)] };
        let any: &Rec = if recs.is_empty() { &some } else { recs[r.below(recs.len())] };
        match name {
            "check" => {
                c.ends = &["csv", "txt", "tsv"];
                let mut text = String::new();
                for n in 0..r.range(1, 3) {
                    let kind = *r.pick(&RULES);
                    text += &checks::random_rule(r, w, recs, kind, format!("R{n}"), n).1;
                }
                o.extend(["-R".into(), w.write("rules.toml", text.as_bytes())]);
                c.note = format!("\n--- rules.toml\n{text}");
            }
            "concat" => {
                (c.append, c.tee) = (true, true);
                if flag(r, o, &["-u", "--unique"], 1, 3) && r.bool() {
                    o.extend(["--unique-strategy".into(), r.pick(&["idn", "hash"]).to_string()]);
                }
            }
            "convert" => {
                c.ends = &["dat", "txt", "json"];
                let to = *r.pick(&["binary", "import", "json", "plain", "plus", "xml"]);
                o.extend(["--from".into(), "plus".into(), "-t".into(), to.into()]);
            }
            "count" => {
                c.ends = &["csv", "tsv"];
                c.append = true;
                match r.below(6) {
                    0 => o.push("--records".into()),
                    1 => o.push("--fields".into()),
                    2 => o.push("--subfields".into()),
                    3 => o.push("--csv".into()),
                    4 => o.push("--tsv".into()),
                    _ => {}
                }
                if o.is_empty() || o[0] == "--csv" || o[0] == "--tsv" {
                    flag(r, o, &["--no-header"], 1, 4);
                }
            }
            "describe" => c.ends = &["csv", "tsv"],
            "explode" => {
                c.gzip = true;
                c.pos.push(r.pick(&["main", "local", "copy"]).to_string());
            }
            "filter" => (c.gzip, c.append, c.tee) = (true, true, true),
            "frequency" | "select" => {
                c.ends = &["csv", "tsv"];
                let q = QOpts { m, ..Default::default() };
                c.pos.push(query_for(r, recs, &q, false).1);
                match r.below(4) {
                    0 => o.push("--squash".into()),
                    1 => o.push("--merge".into()),
                    _ => {}
                }
                flag(r, o, &["--unique", "-u"], 1, 4);
                flag(r, o, &["--tsv", "-t"], 1, 4);
                if r.chance(1, 4) {
                    o.extend(["--translit".into(), r.pick(&["nfc", "nfd", "nfkc", "nfkd"]).to_string()]);
                }
                if name == "frequency" {
                    flag(r, o, &["-r", "--reverse"], 1, 4);
                } else {
                    c.append = true;
                    flag(r, o, &["--no-empty-columns"], 1, 4);
                    if r.chance(1, 4) {
                        o.extend(["--quote-style".into(), r.pick(&["always", "necessary", "non-numeric"]).to_string()]);
                    }
                }
            }
            "hash" => {
                c.ends = &["csv", "tsv"];
                flag(r, o, &["--tsv", "-t"], 1, 4);
                if r.chance(1, 4) {
                    o.extend(["-H".into(), "a,b".into()]);
                }
            }
            "partition" => {
                c.dir = true;
                c.gzip = true;
                c.pos.push(if contained() && r.bool() {
                    path_text(r, Some(any), true).1
                } else {
                    r.pick(&["003@.0", "002@.0", "012A.a"]).to_string()
                });
                if r.chance(1, 4) {
                    o.extend(["-t".into(), r.pick(&["p_{}.dat", "{}/x.dat.gz", "all.dat"]).to_string()]);
                }
            }
            "print" => {
                if r.chance(1, 4) {
                    o.extend(["--translit".into(), r.pick(&["nfc", "nfd"]).to_string()]);
                }
            }
            "sample" => {
                c.gzip = true;
                c.pos.push(r.range(1, recs.len() + 2).to_string());
                o.extend(["--seed".into(), r.below(1000).to_string()]);
            }
            "slice" => {
                (c.gzip, c.append) = (true, true);
                if r.bool() {
                    o.extend(["--length".into(), r.range(1, recs.len() + 2).to_string()]);
                }
            }
            "split" => {
                c.dir = true;
                c.gzip = true;
                c.pos.push(r.range(1, recs.len() + 2).to_string());
                if r.chance(1, 4) {
                    o.extend(["--template".into(), "s{}.dat".into()]);
                }
            }
            _ => unreachable!(),
        }
        if matches!(name, "describe" | "explode" | "filter") && r.chance(1, 4) {
            let n = r.pick(&["-k", "-d", "--keep", "--discard"]).to_string();
            let p = predicates(r, recs).1;
            o.extend([n, p]);
        }
        c
    }

    /// The whole command line.
    pub fn line(&self, r: &mut Rng, sel: &[String], target: &Target, inputs: &[String]) -> Vec<String> {
        let mut o = self.opts.clone();
        o.extend_from_slice(sel);
        o.extend_from_slice(&target.args);
        let mut pos = self.pos.clone();
        pos.extend_from_slice(inputs);
        place(r, &[self.name], o, pos)
    }

    /// The options of a selection. The expression of `filter` is an
    /// argument.
    pub fn selection(&mut self, r: &mut Rng, w: &Work, sel: &mut Sel) -> Vec<String> {
        if self.name != "filter" {
            return sel.args(r, w);
        }
        let mut a = vec![];
        self.pos = vec![match &sel.cond {
            Some((_, t)) => t.clone(),
            None => "003@? || !003@?".into(),
        }];
        for (o, l) in [("--and", &sel.and), ("--or", &sel.or), ("--not", &sel.not)] {
            for (_, t) in l {
                a.push(o.into());
                a.push(t.clone());
            }
        }
        a.extend(sel.other_args(r, w));
        a
    }
}

/// Where the output goes.
#[derive(Clone)]
pub struct Target {
    pub kind: &'static str,
    pub args: Vec<String>,
    /// Written files, and whether they are compressed.
    pub files: Vec<(String, bool)>,
    pub dir: Option<String>,
    pub gzip: bool,
}

pub type Outputs = BTreeMap<String, Vec<u8>>;

impl Target {
    pub fn stdout() -> Target {
        Target { kind: "stdout", args: vec![], files: vec![], dir: None, gzip: false }
    }

    /// A random output; names of files start with `prefix`.
    pub fn random(r: &mut Rng, w: &Work, c: &Cmd, prefix: &str) -> Target {
        let mut t = Target::stdout();
        t.gzip = c.gzip && r.chance(1, 4);
        if t.gzip {
            t.args.push("--gzip".into());
        }
        if c.dir {
            let d = format!("{prefix}dir");
            t.kind = if t.gzip { "dir-gzip" } else { "dir" };
            t.args.extend([r.pick(&["-o", "--outdir"]).to_string(), w.path(&d)]);
            t.dir = Some(d);
            return t;
        }
        if r.chance(2, 5) && c.name != "describe" {
            if t.gzip {
                t.kind = "stdout-gzip";
            }
            return t;
        }
        if c.tee && r.chance(1, 4) {
            let f = format!("{prefix}{}", r.pick(&["tee.dat", "tee.dat.gz"]));
            t.args.extend(["--tee".into(), w.path(&f)]);
            let gz = t.gzip || f.ends_with(".gz");
            t.kind = if gz { "tee.gz" } else { "tee" };
            t.files.push((f, gz));
            return t;
        }
        let f = format!("{prefix}out.{}", r.pick::<&str>(c.ends));
        t.args.extend([r.pick(&["-o", "--output"]).to_string(), w.path(&f)]);
        if c.append && !t.gzip && r.chance(1, 4) {
            t.args.push("--append".into());
        }
        let gz = c.ends[0] == "dat" && !matches!(c.name, "print" | "convert") && (t.gzip || f.ends_with(".gz"));
        t.kind = if gz { "file.gz" } else { "file" };
        t.files.push((f, gz));
        t.gzip = false;
        t
    }

    /// Everything that was written, decompressed.
    pub fn outputs(&self, w: &Work, out: &Out) -> Result<Outputs, String> {
        let mut o = BTreeMap::new();
        let data = if self.gzip && self.dir.is_none() {
            gunzip(&out.out).map_err(|e| format!("stdout: {e}"))?
        } else {
            out.out.clone()
        };
        o.insert("stdout".into(), data);
        for (i, (f, gz)) in self.files.iter().enumerate() {
            o.insert(format!("file {i}"), w.read_any(f, *gz)?);
        }
        if let Some(d) = &self.dir {
            for (f, data) in tree(&w.dir.join(d)) {
                let gz = self.gzip || f.ends_with(".gz");
                let data = if gz { gunzip(&data).map_err(|e| format!("{f}: {e}"))? } else { data };
                o.insert(format!("{d}/{f}").split_once("dir/").unwrap().1.into(), data);
            }
        }
        Ok(o)
    }

    /// The names of everything that is written.
    pub fn paths(&self) -> Vec<String> {
        self.files.iter().map(|f| f.0.clone()).chain(self.dir.clone()).collect()
    }
}

pub fn same_outputs(got: &Outputs, want: &Outputs, info: impl Fn() -> String) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let names = |o: &Outputs| o.keys().cloned().collect::<Vec<_>>().join(" ");
    if got.keys().ne(want.keys()) {
        return Err(format!("outputs are [{}] instead of [{}]; {}", names(got), names(want), info()));
    }
    for (k, g) in got {
        same_output(g, &want[k], || format!("{k}; {}", info()))?;
    }
    Ok(())
}
