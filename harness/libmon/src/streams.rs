//! C02 (reading) and C03 (writing).
use std::cell::RefCell;
use std::fs;
use std::io::{self, ErrorKind, Read, Write};
use std::path::PathBuf;
use std::rc::Rc;

use flate2::Compression;
use flate2::read::MultiGzDecoder;
use flate2::write::GzEncoder;
use model::generate::{self, Opts};
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use pica_record::io::{GzipWriter, PlainWriter};
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde_json::json;

use crate::conv::*;

/// What a reader yields for one line.
#[derive(Clone, Debug, PartialEq)]
enum Item {
    Rec(Rec),
    /// malformed record, with its line number
    Parse(usize),
    /// record that is no text, with its line number
    Utf8(usize),
    Io,
}

impl Item {
    fn short(&self) -> String {
        match self {
            Item::Rec(r) => format!("record '{}'", show(&r.encode())),
            i => format!("{i:?}"),
        }
    }
}

fn list(items: &[Item]) -> String {
    items.iter().enumerate().map(|(i, x)| format!("\n  {}: {}", i + 1, x.short())).collect()
}

fn expected(data: &[u8], text: bool) -> Vec<Item> {
    Rec::lines(data)
        .into_iter()
        .enumerate()
        .map(|(i, l)| match Rec::decode(l) {
            None => Item::Parse(i + 1),
            Some(r) if text && !r.is_utf8() => Item::Utf8(i + 1),
            Some(r) => Item::Rec(r),
        })
        .collect()
}

fn line_of(msg: &str) -> Option<usize> {
    let k = msg.find("line ")? + 5;
    let digits: String = msg[k..].chars().take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().ok()
}

fn observe_err(e: &ReadPicaError, source: Option<&str>) -> Result<Item, String> {
    let msg = e.to_string();
    match e {
        ReadPicaError::IO(_) => {
            if e.skip_parse_err(true) || e.skip_parse_err(false) {
                return Err("a read failure counts as an invalid record".into());
            }
            Ok(Item::Io)
        }
        ReadPicaError::Parse { .. } => {
            let n = line_of(&msg).ok_or(format!("no line number in '{msg}'"))?;
            if let Some(s) = source
                && !msg.contains(s)
            {
                return Err(format!("the source {s} is not named in '{msg}'"));
            }
            if !e.skip_parse_err(true) || e.skip_parse_err(false) {
                return Err("skip_parse_err of an invalid record".into());
            }
            Ok(Item::Parse(n))
        }
        ReadPicaError::Utf8 { .. } => {
            let n = line_of(&msg).ok_or(format!("no line number in '{msg}'"))?;
            if e.skip_parse_err(true) {
                return Err("text errors cannot be skipped".into());
            }
            Ok(Item::Utf8(n))
        }
    }
}

/// Reads everything; `mode` 0 bytes, 1 text, 2 both by turns (`text` says
/// which at each step).
macro_rules! drain {
    ($reader:expr, $text:expr, $source:expr, $cap:expr) => {{
        let mut out: Vec<Item> = vec![];
        let mut nones = 0;
        let mut k = 0usize;
        loop {
            if out.len() > $cap {
                return Err(format!("more than {} results", $cap));
            }
            let item = if ($text)(k) {
                match $reader.next_string_record() {
                    None => None,
                    Some(Ok(r)) => Some(Item::Rec(rec(&r)?)),
                    Some(Err(e)) => Some(observe_err(&e, $source)?),
                }
            } else {
                match $reader.next_byte_record() {
                    None => None,
                    Some(Ok(r)) => {
                        let x = rec(&r)?;
                        let mut enc = vec![];
                        r.write_to(&mut enc).unwrap();
                        expect_bytes("the record as read", &enc, &x.encode())?;
                        Some(Item::Rec(x))
                    }
                    Some(Err(e)) => Some(observe_err(&e, $source)?),
                }
            };
            k += 1;
            match item {
                None => {
                    nones += 1;
                    if nones > 2 {
                        break;
                    }
                }
                Some(_) if nones > 0 => return Err("a result after the end of the data".into()),
                Some(Item::Io) => {
                    out.push(Item::Io);
                    break;
                }
                Some(i) => out.push(i),
            }
        }
        out
    }};
}

/// Delivers its data in random pieces.
struct Chunky {
    data: Vec<u8>,
    pos: usize,
    r: Rng,
    max: usize,
    interrupts: bool,
    fail_at: Option<(usize, ErrorKind)>,
    reads: Rc<RefCell<(u64, u64)>>,
}

impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads.borrow_mut().0 += 1;
        if self.interrupts && self.r.chance(1, 5) {
            self.reads.borrow_mut().1 += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                return Err(io::Error::new(kind, "injected"));
            }
            end = end.min(at);
        }
        let max = self.max.min(buf.len()).min(end - self.pos);
        if max == 0 {
            return Ok(0);
        }
        let n = self.r.range(1, max);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A stream with valid, invalid, empty and undecodable lines.
pub fn stream(r: &mut Rng, large: bool) -> Vec<u8> {
    let n = if large { r.range(200, 1500) } else { r.range(0, 14) };
    let bad = *r.pick(&[0, 10, 30, 60]);
    let o = Opts { utf8: r.bool(), max_fields: *r.pick(&[1, 4, 10]), ..Default::default() };
    let mut data = vec![];
    for _ in 0..n {
        if r.below(100) < bad {
            data.extend(match r.below(4) {
                0 => b"\n".to_vec(),
                _ => generate::invalid_line(r),
            });
        } else {
            let mut rec = generate::record(r, &o);
            if r.chance(1, if large { 60 } else { 30 }) {
                let len = *r.pick(&[8190, 8191, 8192, 16384, 70_000, 140_000]);
                rec.fields[0].subs.push(Sub { code: b'l', value: vec![b'x'; len] });
            }
            data.extend(rec.encode());
        }
    }
    match r.below(8) {
        0 => {
            data.pop();
        }
        1 => data.extend(b"no line feed"),
        2 => {
            let mut rec = generate::record(r, &o).encode();
            rec.pop();
            data.extend(rec);
        }
        _ => (),
    }
    data
}

fn huge(r: &mut Rng, idx: u64) -> (&'static str, Vec<u8>) {
    let o = Opts { ppn: 100, ..Default::default() };
    let mut data = vec![];
    let what = match idx % 3 {
        0 => {
            for k in 0..r.range(1, 3) {
                let mut rec = generate::record(r, &o);
                let len = if k == 0 { r.range(5 << 20, 20 << 20) } else { r.range(1, 3 << 20) };
                let value = generate::long(r, &o, len);
                rec.fields[0].subs.push(Sub { code: b'a', value });
                data.extend(rec.encode());
            }
            "long lines"
        }
        1 => {
            for i in 0..r.range(66_000, 70_000) {
                data.extend(format!("003@ \u{1f}0{i}\u{1e}\n").bytes());
                if r.chance(1, 20_000) {
                    data.extend(generate::invalid_line(r));
                }
            }
            data.extend(generate::invalid_line(r));
            "many lines"
        }
        _ => {
            let mut rec = generate::record(r, &o);
            let f = rec.fields[0].clone();
            rec.fields.extend((0..67_000).map(|_| f.clone()));
            rec.fields.push(generate::field(r, &o));
            data.extend(rec.encode());
            data.extend(vec![b'?'; 6 << 20]);
            data.push(b'\n');
            "many fields"
        }
    };
    for _ in 0..3 {
        data.extend(generate::record(r, &o).encode());
    }
    (what, data)
}

pub fn gzip_members(r: &mut Rng, data: &[u8], members: usize) -> Vec<u8> {
    let mut cuts: Vec<usize> = (1..members).map(|_| r.below(data.len() + 1)).collect();
    cuts.sort();
    cuts.insert(0, 0);
    cuts.push(data.len());
    let mut out = vec![];
    for w in cuts.windows(2) {
        let level = *r.pick(&[0, 1, 6, 9]);
        let mut e = GzEncoder::new(vec![], Compression::new(level));
        e.write_all(&data[w[0]..w[1]]).unwrap();
        out.extend(e.finish().unwrap());
    }
    out
}

fn shape(items: &[Item]) -> String {
    let mut s = String::new();
    for i in items.iter().take(8) {
        s.push(match i {
            Item::Rec(_) => 'r',
            Item::Parse(_) => 'p',
            Item::Utf8(_) => 'u',
            Item::Io => 'e',
        });
    }
    s
}

fn check(what: &str, got: &[Item], want: &[Item], data: &[u8]) -> Verdict {
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{what}: results differ from line {} on: got {} results, expected {}\ngot {}\nexpected {}\ninput '{}'",
        k + 1,
        got.len(),
        want.len(),
        list(&got[k..got.len().min(k + 4)]),
        list(&want[k..want.len().min(k + 4)]),
        show(&data[..data.len().min(4000)])
    ))
}

fn file(ctx: &Ctx, c: &Case, name: &str) -> PathBuf {
    let d = ctx.scratch.join(format!("t{}", c.thread));
    let _ = fs::create_dir_all(&d);
    d.join(name)
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule(
        "A case reads a generated stream (valid, malformed, empty and undecodable lines, lines \
         of up to 140 kB, an unterminated last line) through the library: from a reader that \
         delivers random pieces, interruptions and failures at a random byte, from plain files \
         and from gzip files of one to five members, intact, truncated or with a flipped bit, \
         as bytes, as text and by turns; the sequence of results is compared with the lines of \
         the stream. A situation is the pattern of the first eight results with source and mode.",
    );
    let ctx = &*ctx;
    ctx.run("chunks", 6_000, 300_000, |c| {
        let large = c.idx % 200 == 7;
        let data = stream(&mut c.r, large);
        let mode = c.r.below(3);
        let flip = c.r.u64();
        let text = move |k: usize| match mode {
            0 => false,
            1 => true,
            _ => (flip >> (k % 64)) & 1 == 1,
        };
        let source = match c.r.below(3) {
            0 => None,
            1 => Some("-".to_string()),
            _ => Some("some/file (x).dat".to_string()),
        };
        let shown = source.as_deref().map(|s| if s == "-" { "<stdin>" } else { s });
        let reads = Rc::new(RefCell::new((0, 0)));
        let max = *c.r.pick(&[1, 2, 7, 100, 8192, 100_000]);
        let chunky = Chunky {
            data: data.clone(),
            pos: 0,
            max: if large { max.max(100) } else { max },
            interrupts: c.r.chance(1, 3),
            r: c.r.clone(),
            fail_at: None,
            reads: reads.clone(),
        };
        let bytes = expected(&data, false);
        let texts = expected(&data, true);
        let want: Vec<Item> = (0..bytes.len())
            .map(|i| if text(i) { texts[i].clone() } else { bytes[i].clone() })
            .collect();
        let mut reader = ReaderBuilder::new().from_reader(chunky, source.clone());
        let got = drain!(reader, text, shown, want.len() + 10);
        c.count("lines read", want.len() as u64);
        c.count("read calls of the library", reads.borrow().0);
        c.count("interrupted reads", reads.borrow().1);
        for i in &want {
            c.count(
                match i {
                    Item::Rec(_) => "records",
                    Item::Parse(_) => "malformed lines",
                    Item::Utf8(_) => "undecodable records",
                    Item::Io => "read failures",
                },
                1,
            );
        }
        c.sig(&format!("chunks/{}/{mode}/{max}", shape(&want)));
        c.sample(|| json!({"input": show(&data[..data.len().min(500)]), "mode": mode, "max_read": max}));
        check("chunked reader", &got, &want, &data)
    });
    // Lines of several MiB, more than 65 536 lines, long sources
    ctx.run("huge", 2, 100, |c| {
        let (what, data) = huge(&mut c.r, c.idx);
        let text = c.r.bool();
        let gz = c.r.bool();
        let want = expected(&data, text);
        let name = if gz { "huge.dat.gz" } else { "huge.dat" };
        let path = file(ctx, c, name);
        let content = if gz { gzip_members(&mut c.r, &data, 2) } else { data.clone() };
        fs::write(&path, content).map_err(|e| format!("{INCONCLUSIVE}{e}"))?;
        let mut reader = ReaderBuilder::new()
            .from_path(&path)
            .map_err(|e| format!("cannot open the file: {e}"))?;
        let got = drain!(reader, |_| text, None, want.len() + 10);
        let _ = fs::remove_file(&path);
        c.count("huge streams", 1);
        c.count("lines read", want.len() as u64);
        c.sig(&format!("huge/{what}/{gz}/{text}"));
        check(&format!("{what} in {name}"), &got, &want, &data)
    });
    ctx.run("failures", 6_000, 300_000, |c| {
        let data = stream(&mut c.r, false);
        let at = c.r.below(data.len() + 1);
        let kind = *c.r.pick(&[
            ErrorKind::Other,
            ErrorKind::UnexpectedEof,
            ErrorKind::WouldBlock,
            ErrorKind::TimedOut,
            ErrorKind::InvalidData,
            ErrorKind::ConnectionReset,
        ]);
        let mut want = expected(&data[..at], false);
        if at > 0 && data[at - 1] != b'\n' {
            want.pop();
        }
        want.push(Item::Io);
        let text = c.r.bool();
        if text {
            let mut t = expected(&data[..at], true);
            t.truncate(want.len() - 1);
            t.push(Item::Io);
            want = t;
        }
        let chunky = Chunky {
            data: data.clone(),
            pos: 0,
            max: *c.r.pick(&[1, 7, 100_000]),
            interrupts: c.r.bool(),
            r: c.r.clone(),
            fail_at: Some((at, kind)),
            reads: Default::default(),
        };
        let mut reader = ReaderBuilder::new().from_reader(chunky, Some("f".into()));
        let got = drain!(reader, |_| text, None, want.len() + 10);
        c.count("read failures", 1);
        c.sig(&format!("failure/{}/{kind:?}/{text}", shape(&want)));
        check("failing reader", &got, &want, &data)
    });
    ctx.run("files", 3_000, 150_000, |c| {
        let large = c.idx % 100 == 3;
        let data = stream(&mut c.r, large);
        let gz = c.r.chance(2, 3);
        let members = c.r.range(1, 5);
        let (name, content) = if gz {
            (
                c.r.pick(&["in.dat.gz", "in.gz"]).to_string(),
                gzip_members(&mut c.r, &data, members),
            )
        } else {
            (c.r.pick(&["in.dat", "in", "gz", "in.gz.dat"]).to_string(), data.clone())
        };
        let path = file(ctx, c, &name);
        fs::write(&path, &content).map_err(|e| format!("{INCONCLUSIVE}{e}"))?;
        let text = c.r.bool();
        let want = expected(&data, text);
        let mut reader = ReaderBuilder::new()
            .from_path(&path)
            .map_err(|e| format!("cannot open the file: {e}"))?;
        let got = drain!(reader, |_| text, Some(path.to_str().unwrap()), want.len() + 10);
        c.count(if gz { "gzip members read" } else { "plain files read" }, if gz { members as u64 } else { 1 });
        c.count("lines read", want.len() as u64);
        c.sig(&format!("file/{}/{gz}/{members}/{text}", shape(&want)));
        check(&format!("file {name}, {members} members"), &got, &want, &data)
    });
    ctx.run("damaged", 6_000, 300_000, |c| {
        let data = stream(&mut c.r, false);
        let members = c.r.range(1, 3);
        // truncation at a member boundary would be a complete file
        let content = gzip_members(&mut c.r, &data, members);
        let mut bad = content.clone();
        let path = file(ctx, c, "bad.dat.gz");
        let (what, boundary) = match c.r.below(3) {
            0 => {
                let n = c.r.below(content.len());
                bad.truncate(n);
                // a prefix that decompresses completely is a shorter file
                let mut out = vec![];
                let full = n > 0 && MultiGzDecoder::new(&bad[..]).read_to_end(&mut out).is_ok();
                ("truncated", full)
            }
            1 => {
                let i = c.r.below(bad.len());
                bad[i] ^= 1 << c.r.below(8);
                ("flipped", false)
            }
            _ => {
                bad.extend(b"garbage after the last member");
                ("trailing", false)
            }
        };
        if boundary {
            c.count("truncated at a member boundary", 1);
            return Ok(());
        }
        fs::write(&path, &bad).map_err(|e| format!("{INCONCLUSIVE}{e}"))?;
        let want = expected(&data, false);
        let mut reader =
            ReaderBuilder::new().from_path(&path).map_err(|e| format!("cannot open: {e}"))?;
        let got = drain!(reader, |_| false, None, 3_000_000);
        let failed = got.last() == Some(&Item::Io);
        c.count(&format!("{what} gzip files"), 1);
        c.sig(&format!("{what}/{}/{members}", shape(&got)));
        if failed {
            let k = got.len() - 1;
            if what == "truncated" && got[..k] != want[..k] {
                return check("truncated gzip file", &got[..k], &want[..k], &data);
            }
            return Ok(());
        }
        if what == "flipped" && got == want {
            // header bits that carry no data
            c.count("flips without effect", 1);
            return Ok(());
        }
        Err(format!(
            "a {what} gzip file of {} bytes (of {}) ends cleanly with {} of {} lines",
            bad.len(),
            content.len(),
            got.len(),
            want.len()
        ))
    });
    ctx.run("missing", 20, 200, |c| {
        let path = file(ctx, c, "does-not-exist.dat");
        if ReaderBuilder::new().from_path(&path).is_ok() {
            return Err("opening a missing file succeeds".into());
        }
        let dir = file(ctx, c, "dir.dat");
        let _ = fs::create_dir_all(&dir);
        if let Ok(mut r) = ReaderBuilder::new().from_path(&dir) {
            let got = drain!(r, |_| false, None, 10);
            if got != [Item::Io] {
                return Err("reading a directory is no error".into());
            }
        }
        let empty = file(ctx, c, "empty.dat.gz");
        fs::write(&empty, b"").unwrap();
        c.count("unusable files", 3);
        Ok(())
    });
    ctx.require("malformed lines", 500);
    ctx.require("undecodable records", 200);
    ctx.require("interrupted reads", 200);
    ctx.require("truncated gzip files", 500);
}

// ---------------------------------------------------------------- C03

/// A destination with short writes, interruptions and failures.
#[derive(Clone)]
struct Sink(Rc<RefCell<SinkState>>);

struct SinkState {
    data: Vec<u8>,
    r: Rng,
    max: usize,
    interrupts: bool,
    fail_at: Option<(usize, ErrorKind)>,
    /// fail only once, then accept data again
    once: bool,
    fail_flush: bool,
    failures: u64,
    writes: u64,
}

impl Sink {
    fn new(r: &Rng, max: usize) -> Sink {
        Sink(Rc::new(RefCell::new(SinkState {
            data: vec![],
            r: r.clone(),
            max,
            interrupts: false,
            fail_at: None,
            once: false,
            fail_flush: false,
            failures: 0,
            writes: 0,
        })))
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if s.interrupts && s.r.chance(1, 5) {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut max = s.max.min(buf.len());
        if let Some((at, kind)) = s.fail_at {
            let left = at.saturating_sub(s.data.len());
            if left == 0 {
                s.failures += 1;
                if s.once {
                    s.fail_at = None;
                }
                if kind == ErrorKind::WriteZero {
                    return Ok(0);
                }
                return Err(io::Error::new(kind, "injected"));
            }
            max = max.min(left);
        }
        let n = s.r.range(1, max);
        s.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        if s.fail_flush {
            s.failures += 1;
            return Err(ErrorKind::Other.into());
        }
        Ok(())
    }
}

/// Some records and the bytes that writing them must produce.
fn batch(r: &mut Rng, n: usize) -> (Vec<(Rec, usize)>, Vec<u8>) {
    let o = Opts { utf8: r.bool(), max_fields: *r.pick(&[2, 6, 12]), ..Default::default() };
    let mut out = vec![];
    let recs: Vec<_> = (0..n)
        .map(|_| {
            let mut rec = generate::record(r, &o);
            if r.chance(1, 40) {
                let len = *r.pick(&[8180, 8192, 8193, 40_000]);
                rec.fields[0].subs.push(Sub { code: b'l', value: vec![b'z'; len] });
            }
            let kind = r.below(5);
            (rec, kind)
        })
        .collect();
    for (rec, kind) in &recs {
        if *kind == 4 {
            let mut rec = rec.clone();
            rec.fields.retain(|f| f.level() == 0);
            if !rec.fields.is_empty() {
                out.extend(rec.encode());
            }
        } else {
            out.extend(rec.encode());
        }
    }
    (recs, out)
}

/// Writes one record in one of its forms.
fn put(w: &mut dyn ByteRecordWrite, rec: &Rec, kind: usize) -> io::Result<()> {
    let enc = rec.encode();
    match kind {
        0 => w.write_byte_record(&ByteRecord::from_bytes(&enc).unwrap()),
        1 => w.write_byte_record(&ByteRecord::from(RecordRef::from_bytes(&enc).unwrap())),
        2 => match StringRecord::try_from(ByteRecord::from_bytes(&enc).unwrap()) {
            Ok(s) => w.write_byte_record(&s),
            Err(_) => w.write_byte_record(&ByteRecord::from_bytes(&enc).unwrap()),
        },
        3 => {
            let mut b = ByteRecord::from_bytes(&enc).unwrap();
            b.retain(|_| true);
            w.write_byte_record(&b)
        }
        _ => {
            let mut b = ByteRecord::from_bytes(&enc).unwrap();
            b.retain(|f| f.level() == Level::Main);
            w.write_byte_record(&b)
        }
    }
}

pub fn gunzip(data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    if data.is_empty() {
        return Err("no gzip stream at all".into());
    }
    MultiGzDecoder::new(data).read_to_end(&mut out).map_err(|e| format!("gzip: {e}"))?;
    Ok(out)
}

fn read_back(path: &std::path::Path, want: &[u8]) -> Verdict {
    let mut reader =
        ReaderBuilder::new().from_path(path).map_err(|e| format!("cannot read back: {e}"))?;
    let exp = expected(want, false);
    let got = drain!(reader, |_| false, None, exp.len() + 10);
    check("reading back", &got, &exp, want)
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule(
        "A case writes a random sequence of records (borrowed, copied, text, reduced; small \
         ones and ones around the buffer size) through plain and gzip writers: into a sink that \
         takes short pieces, interrupts and fails at a random byte or on flush, and into files, \
         truncating and appending over several sessions; what the destination holds is compared \
         with the encoding of the records and read back, and a failure of the destination must \
         be reported by some write or by finish. A situation is writer, mode, failure kind and \
         position class, number of records.",
    );
    let ctx = &*ctx;
    ctx.run("sinks", 6_000, 300_000, |c| {
        let n = if c.idx % 100 == 5 { c.r.range(100, 800) } else { c.r.range(0, 12) };
        let (recs, want) = batch(&mut c.r, n);
        let gz = c.r.bool();
        let max = *c.r.pick(&[1, 3, 50, 4096, 1 << 20]);
        let sink = Sink::new(&c.r, max);
        // (the gzip encoder passes interruptions on)
        sink.0.borrow_mut().interrupts = !gz && c.r.chance(1, 3);
        let mut w: Box<dyn ByteRecordWrite> = if gz {
            Box::new(GzipWriter::new(sink.clone()))
        } else {
            Box::new(PlainWriter::new(sink.clone()))
        };
        for (rec, kind) in &recs {
            put(&mut *w, rec, *kind).map_err(|e| format!("write fails: {e}"))?;
        }
        w.finish().map_err(|e| format!("finish fails: {e}"))?;
        let data = sink.0.borrow().data.clone();
        if c.r.bool() {
            drop(w);
            if sink.0.borrow().data != data {
                return Err("dropping a finished writer writes more data".into());
            }
        }
        let got = if gz { gunzip(&data)? } else { data };
        c.count("records written", n as u64);
        c.count("writes to the destination", sink.0.borrow().writes);
        c.sig(&format!("sink/{gz}/{max}/{}/{}", n.min(12), want.len() > 8192));
        c.sample(|| json!({"gzip": gz, "largest_write": max, "records": n, "bytes": got.len()}));
        expect_bytes("the destination", &got, &want)
    });
    ctx.run("huge", 2, 100, |c| {
        let o = Opts { ppn: 100, ..Default::default() };
        let mut recs = vec![];
        let mut want = vec![];
        for _ in 0..c.r.range(1, 3) {
            let mut rec = generate::record(&mut c.r, &o);
            if c.r.bool() {
                let len = c.r.range(3 << 20, 18 << 20);
                let value = generate::long(&mut c.r, &o, len);
                rec.fields[0].subs.push(Sub { code: b'a', value });
            } else {
                let f = rec.fields[0].clone();
                rec.fields.extend((0..67_000).map(|_| f.clone()));
            }
            want.extend(rec.encode());
            recs.push(rec);
        }
        for _ in 0..if c.r.bool() { 66_000 } else { 3 } {
            let rec = Rec { fields: vec![generate::ppn_field(&mut c.r)] };
            want.extend(rec.encode());
            recs.push(rec);
        }
        let gz = c.r.bool();
        let name = if gz { "huge.dat.gz" } else { "huge.dat" };
        let path = file(ctx, c, name);
        let mut w = WriterBuilder::new().from_path(&path).map_err(|e| format!("cannot open: {e}"))?;
        for rec in &recs {
            put(&mut *w, rec, 0).map_err(|e| format!("write fails: {e}"))?;
        }
        w.finish().map_err(|e| format!("finish fails: {e}"))?;
        let raw = fs::read(&path).map_err(|e| format!("no file: {e}"))?;
        let got = if gz { gunzip(&raw)? } else { raw };
        let _ = fs::remove_file(&path);
        c.count("huge files", 1);
        c.count("records written", recs.len() as u64);
        c.sig(&format!("huge/{gz}/{}", want.len() >> 22));
        expect_bytes("the file", &got, &want)
    });
    ctx.run("failures", 8_000, 400_000, |c| {
        let n = if c.idx % 50 == 5 { c.r.range(50, 300) } else { c.r.range(1, 12) };
        let (recs, want) = batch(&mut c.r, n);
        if want.is_empty() {
            return Ok(());
        }
        let gz = c.r.bool();
        let kind = *c.r.pick(&[
            ErrorKind::StorageFull,
            ErrorKind::Other,
            ErrorKind::BrokenPipe,
            ErrorKind::WouldBlock,
            ErrorKind::WriteZero,
            ErrorKind::PermissionDenied,
        ]);
        let max = *c.r.pick(&[1, 50, 1 << 20]);
        let sink = Sink::new(&c.r, max);
        let at = match c.r.below(5) {
            0 => 0,
            1 => want.len().saturating_sub(c.r.range(1, 9)),
            _ => c.r.below(want.len()),
        };
        {
            let mut s = sink.0.borrow_mut();
            s.interrupts = !gz && c.r.chance(1, 4);
            s.once = c.r.chance(1, 3);
            if c.r.chance(1, 8) && !gz {
                s.fail_flush = true;
            } else {
                s.fail_at = Some((at, kind));
            }
        }
        let mut w: Box<dyn ByteRecordWrite> = if gz {
            Box::new(GzipWriter::new(sink.clone()))
        } else {
            Box::new(PlainWriter::new(sink.clone()))
        };
        let mut reported = false;
        for (rec, kind) in &recs {
            if put(&mut *w, rec, *kind).is_err() {
                reported = true;
                break;
            }
        }
        if !reported {
            reported = w.finish().is_err();
        }
        // The verdict is about what was known when finish returned.
        let (failures, data) = {
            let s = sink.0.borrow();
            (s.failures, s.data.clone())
        };
        c.count("destinations that fail", (failures > 0) as u64);
        c.count("failures reported", reported as u64);
        c.sig(&format!("failure/{gz}/{kind:?}/{}/{}", at * 8 / want.len(), n.min(6)));
        if failures > 0 && !reported {
            return Err(format!(
                "{failures} failures of the destination ({kind:?} at byte {at}) but every write and finish succeeds"
            ));
        }
        if !reported {
            let got = if gz { gunzip(&data)? } else { data };
            expect_bytes("no failure reported", &got, &want)?;
        } else if failures == 0 {
            return Err("a failure is reported but the destination did not fail".into());
        }
        Ok(())
    });
    ctx.run("files", 3_000, 150_000, |c| {
        let name = *c.r.pick(&["out.dat", "out.dat.gz", "out", "out.gz"]);
        let path = file(ctx, c, name);
        let ext_gz = name.ends_with(".gz");
        let _ = fs::remove_file(&path);
        let mut held: Option<(Vec<u8>, bool)> = None;
        let mut sig = String::new();
        // sessions, each truncating or appending
        for _ in 0..c.r.range(1, 4) {
            let append = c.r.chance(2, 3);
            let gz = !append && c.r.chance(1, 3);
            // never mix plain and compressed content
            if append && held.as_ref().is_some_and(|(_, g)| *g != ext_gz) {
                continue;
            }
            let n = if c.r.chance(1, 30) { 300 } else { c.r.range(0, 6) };
            let (recs, want) = batch(&mut c.r, n);
            let b = if c.r.bool() {
                WriterBuilder::new().append(append).gzip(gz)
            } else {
                WriterBuilder::new().gzip(gz).append(append)
            };
            let mut w = if c.r.bool() {
                b.from_path(&path)
            } else {
                b.from_path_or_stdout(Some(&path))
            }
            .map_err(|e| format!("cannot open: {e}"))?;
            for (rec, kind) in &recs {
                put(&mut *w, rec, *kind).map_err(|e| format!("write fails: {e}"))?;
            }
            w.finish().map_err(|e| format!("finish fails: {e}"))?;
            // the file is complete whether or not the writer is dropped
            let late = c.r.bool().then_some(w);
            let packed = gz || ext_gz;
            match &mut held {
                Some((d, _)) if append => d.extend(&want),
                _ => held = Some((want, packed)),
            }
            sig += &format!("{}{}{}", append as u8, gz as u8, n.min(3));
            c.count("writing sessions", 1);
            c.count("records written", n as u64);
            let raw = fs::read(&path).map_err(|e| format!("no file: {e}"))?;
            let (want, packed) = held.as_ref().unwrap();
            let got = if *packed { gunzip(&raw)? } else { raw };
            expect_bytes("the file", &got, want)?;
            if *packed == ext_gz {
                read_back(&path, want)?;
            }
            if late.is_some() {
                drop(late);
                let raw = fs::read(&path).map_err(|e| format!("no file: {e}"))?;
                let got = if *packed { gunzip(&raw)? } else { raw };
                expect_bytes("the file after the drop", &got, want)?;
            }
        }
        c.sig(&format!("file/{name}/{sig}"));
        Ok(())
    });
    ctx.run("full", 60, 2_000, |c| {
        let big = c.r.bool();
        let (recs, want) = batch(&mut c.r, if big { 400 } else { 3 });
        if want.is_empty() {
            return Ok(());
        }
        let gz = c.r.bool();
        let mut w = WriterBuilder::new()
            .gzip(gz)
            .from_path("/dev/full")
            .map_err(|e| format!("{INCONCLUSIVE}/dev/full: {e}"))?;
        let mut failed = false;
        for (rec, kind) in &recs {
            failed |= put(&mut *w, rec, *kind).is_err();
        }
        failed |= w.finish().is_err();
        c.count("full devices", 1);
        c.sig(&format!("full/{gz}/{big}"));
        if !failed {
            return Err("writing to a full device succeeds".into());
        }
        Ok(())
    });
    ctx.run("unwritable", 10, 50, |c| {
        let p = file(ctx, c, "no/such/dir/out.dat");
        if WriterBuilder::new().from_path(&p).is_ok() {
            return Err("opening a file in a missing directory succeeds".into());
        }
        c.count("unusable paths", 1);
        Ok(())
    });
    ctx.require("destinations that fail", 500);
    ctx.require("records written", 1000);
}
