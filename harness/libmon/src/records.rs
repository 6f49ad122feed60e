//! C01 (decoding) and C12 (reduction).
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use model::expr::*;
use model::generate::{self, Opts};
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde_json::json;

use crate::conv::*;

fn write<F: FnOnce(&mut Vec<u8>) -> std::io::Result<()>>(f: F) -> Vec<u8> {
    let mut v = vec![];
    f(&mut v).unwrap();
    v
}

/// Compares everything the record types show with the reference decoding.
fn observe(case: &mut Case, data: &[u8]) -> Verdict {
    let want = Rec::decode(data);
    let vec = data.to_vec();
    let byte = ByteRecord::from_bytes(&vec);
    let reff = RecordRef::from_bytes(&vec);
    case.count(if want.is_some() { "records accepted" } else { "byte strings rejected" }, 1);
    let ctx = || format!("input '{}' ({data:?})", show(data));
    if byte.is_ok() != want.is_some() || reff.is_ok() != want.is_some() {
        return Err(format!(
            "accepted as ByteRecord: {}, as RecordRef: {}, by the grammar: {}; {}",
            byte.is_ok(),
            reff.is_ok(),
            want.is_some(),
            ctx()
        ));
    }
    let Some(want) = want else {
        case.sig(&format!("reject/{}", reject_shape(data)));
        return Ok(());
    };
    let (byte, reff) = (byte.unwrap(), reff.unwrap());
    let sig = format!(
        "accept/{}/{}/{}/{}",
        want.fields.len().min(20),
        want.fields.iter().map(|f| f.subs.len()).max().unwrap().min(10),
        want.fields.iter().filter(|f| f.occ.is_some()).count().min(5),
        want.is_utf8()
    );
    case.sig(&sig);
    expect_rec("ByteRecord", &byte, &want)?;
    expect_rec("RecordRef", &reff, &want)?;
    if reff.is_empty() || reff.fields().len() != want.fields.len() {
        return Err(format!("is_empty/fields; {}", ctx()));
    }
    // re-encoding
    expect_bytes("ByteRecord::write_to", &write(|o| byte.write_to(o)), data)?;
    expect_bytes("RecordRef::write_to", &write(|o| reff.write_to(o)), data)?;
    let from_ref = ByteRecord::from(RecordRef::from_bytes(&vec).unwrap());
    expect_bytes("ByteRecord::from(RecordRef)", &write(|o| from_ref.write_to(o)), data)?;
    if from_ref != byte || byte != from_ref {
        return Err(format!("a record and its copy are not equal; {}", ctx()));
    }
    let owned = Record::from(RecordRef::from_bytes(&vec).unwrap());
    expect_bytes("Record::write_to", &write(|o| owned.write_to(o)), data)?;
    if reff != owned || owned != reff {
        return Err(format!("owned and borrowed record are not equal; {}", ctx()));
    }
    // the parts
    for (i, (f, w)) in reff.fields().iter().zip(&want.fields).enumerate() {
        let mut enc = vec![];
        w.encode(&mut enc);
        let level = match w.level() {
            0 => Level::Main,
            1 => Level::Local,
            _ => Level::Copy,
        };
        if f.level() != level || f.tag().level() != level {
            return Err(format!("level of field {i}; {}", ctx()));
        }
        if (0..4).any(|k| f.tag()[k] != w.tag[k]) || *f.tag() != w.tag_str() {
            return Err(format!("tag of field {i}; {}", ctx()));
        }
        expect_bytes("FieldRef::write_to", &write(|o| f.write_to(o)), &enc)?;
        let owned = Field::from(f.clone());
        expect_bytes("Field::write_to", &write(|o| owned.write_to(o)), &enc)?;
        if *f != owned || owned != *f {
            return Err(format!("owned and borrowed field are not equal; {}", ctx()));
        }
        let again = FieldRef::from_bytes(&enc).map_err(|e| format!("{e}; {}", ctx()))?;
        if &again != f {
            return Err(format!("FieldRef::from_bytes; {}", ctx()));
        }
        let tag = Tag::from(f.tag().clone());
        expect_bytes("Tag", tag.as_bytes(), &w.tag)?;
        if tag != *f.tag() || *f.tag() != tag || tag.to_string() != w.tag_str() {
            return Err(format!("owned and borrowed tag are not equal; {}", ctx()));
        }
        if let Some(o) = f.occurrence() {
            let occ = Occurrence::from(o.clone());
            let wo = w.occ.as_ref().unwrap();
            expect_bytes("Occurrence", occ.as_bytes(), wo)?;
            if *o != occ || o.as_bytes() != &wo[..] || occ.len() != wo.len() {
                return Err(format!("owned and borrowed occurrence are not equal; {}", ctx()));
            }
            let t = String::from_utf8(wo.clone()).unwrap();
            if occ.to_string() != t || o.to_string() != format!("/{t}") {
                return Err(format!("text of an occurrence; {}", ctx()));
            }
        }
        for c in b"0aZ9zb" {
            let n = w.subs.iter().position(|s| s.code == *c);
            if f.contains(*c as char) != n.is_some() {
                return Err(format!("contains({}); {}", *c as char, ctx()));
            }
            let found = f.find(|s| s.code().as_byte() == *c).map(|s| s.value().as_bytes());
            if found != n.map(|n| &w.subs[n].value[..]) {
                return Err(format!("find({}); {}", *c as char, ctx()));
            }
        }
        for (s, ws) in f.subfields().iter().zip(&w.subs) {
            let mut enc = vec![0x1f, ws.code];
            enc.extend_from_slice(&ws.value);
            expect_bytes("SubfieldRef::write_to", &write(|o| s.write_to(o)), &enc)?;
            let owned = Subfield::from(s.clone());
            expect_bytes("Subfield::write_to", &write(|o| owned.write_to(o)), &enc)?;
            expect_bytes("SubfieldValue", owned.value().as_bytes(), &ws.value)?;
            if *s != owned
                || owned.code().as_byte() != ws.code
                || *s.value() != ws.value
                || *s.value() != *owned.value()
            {
                return Err(format!("owned and borrowed subfield are not equal; {}", ctx()));
            }
            if s.validate().is_ok() != std::str::from_utf8(&ws.value).is_ok() {
                return Err(format!("SubfieldRef::validate; {}", ctx()));
            }
        }
        let ok = w.subs.iter().all(|s| std::str::from_utf8(&s.value).is_ok());
        if f.validate().is_ok() != ok {
            return Err(format!("FieldRef::validate of field {i}; {}", ctx()));
        }
    }
    // identifier
    let ppn = reff.ppn().map(|v| v.to_vec());
    if ppn.as_deref() != want.ppn() {
        return Err(format!("PPN is {ppn:?} but should be {:?}; {}", want.ppn(), ctx()));
    }
    // text
    let utf8 = want.is_utf8();
    if reff.validate().is_ok() != utf8 || byte.validate().is_ok() != utf8 {
        return Err(format!("validate() but UTF-8 is {utf8}; {}", ctx()));
    }
    match StringRecord::try_from(byte) {
        Ok(s) if utf8 => {
            case.count("text records", 1);
            expect_rec("StringRecord", &s, &want)?;
            expect_bytes("StringRecord::write_to", &write(|o| s.write_to(o)), data)?;
            if s.ppn().map(|v| v.as_bytes()) != want.ppn() {
                return Err(format!("PPN of the text record; {}", ctx()));
            }
        }
        Err(_) if !utf8 => case.count("records that are no text", 1),
        _ => return Err(format!("text decoding: expected {utf8}; {}", ctx())),
    }
    Ok(())
}

/// What the longest plausible prefix of a rejected string looks like.
fn reject_shape(data: &[u8]) -> String {
    let mut s = String::new();
    for b in data.iter().rev().take(3) {
        s.push(match b {
            0x1e => '#',
            0x1f => '$',
            b'\n' => 'n',
            b' ' => '_',
            b'/' => '/',
            b'0'..=b'9' => '0',
            b'A'..=b'Z' => 'A',
            b'a'..=b'z' => 'a',
            _ => '?',
        });
    }
    format!("{s}/{}", data.len().min(12))
}

fn mutate(r: &mut Rng, data: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let specials = b"\x1e\x1f\n /0129@AZaz$\xff\x00\r";
        match r.below(6) {
            0 if !data.is_empty() => {
                let i = r.below(data.len());
                data.remove(i);
            }
            1 => {
                let i = r.below(data.len() + 1);
                data.insert(i, *r.pick(specials));
            }
            2 if !data.is_empty() => {
                let i = r.below(data.len());
                data[i] = *r.pick(specials);
            }
            3 if !data.is_empty() => {
                let i = r.below(data.len());
                data[i] = r.below(256) as u8;
            }
            4 if data.len() > 1 => {
                let i = r.below(data.len());
                let j = r.range(i, data.len());
                let part = data[i..j].to_vec();
                let k = r.below(data.len() + 1);
                data.splice(k..k, part);
            }
            _ if !data.is_empty() => {
                let i = r.below(data.len());
                data.truncate(i);
            }
            _ => (),
        }
    }
}

fn seeds() -> Vec<Vec<u8>> {
    [
        &b"003@ \x1f0123\x1e\n"[..],
        b"003@ \x1f0123\x1e012A/01 \x1fa\x1fbx\x1e\n",
        b"209A/999 \x1e\n",
        b"101@ \x1faA\x1faB\x1e101@/00 \x1fZ\xc3\xa9\x1e\n",
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect()
}

/// All single-byte replacements, insertions and deletions of a record.
fn neighbours(seed: &[u8], i: usize) -> Option<Vec<u8>> {
    let n = seed.len();
    let mut v = seed.to_vec();
    if i < n * 256 {
        v[i / 256] = (i % 256) as u8;
    } else if i < n * 256 + (n + 1) * 256 {
        let k = i - n * 256;
        v.insert(k / 256, (k % 256) as u8);
    } else if i < n * 256 + (n + 1) * 256 + n {
        v.remove(i - n * 256 - (n + 1) * 256);
    } else {
        return None;
    }
    Some(v)
}

fn opts_of(r: &mut Rng) -> Opts {
    Opts {
        utf8: r.chance(1, 3),
        lf: r.chance(1, 4),
        max_fields: *r.pick(&[2, 6, 12]),
        ..Default::default()
    }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule(
        "A case decodes byte strings (records of a generator with all tags, two- and \
         three-digit occurrences, empty and repeated subfields, arbitrary bytes; mutations of \
         them; all single-byte neighbours of four records; every tag and occurrence) with \
         every record type and compares acceptance, content, text validation and re-encoding \
         with an independent decoder. A situation is the shape of an accepted record (fields, \
         subfields, occurrences, UTF-8) or the class of the last bytes and the length of a \
         rejected string.",
    );
    ctx.assume("the reference decoder in harness/model/src/rec.rs states the grammar correctly");
    ctx.run("records", 20_000, 1_000_000, |c| {
        let o = opts_of(&mut c.r);
        let rec = generate::record(&mut c.r, &o);
        let data = rec.encode();
        c.sample(|| json!(show(&data)));
        if Rec::decode(&data).as_ref() != Some(&rec) {
            return inconclusive("the model does not decode its own encoding");
        }
        observe(c, &data)
    });
    ctx.run("mutations", 40_000, 3_000_000, |c| {
        let o = opts_of(&mut c.r);
        let mut data = generate::record(&mut c.r, &o).encode();
        mutate(&mut c.r, &mut data);
        c.sample(|| json!(show(&data)));
        observe(c, &data)
    });
    ctx.run("noise", 10_000, 1_000_000, |c| {
        let n = c.r.range(0, 24);
        let alphabet = b"\x1e\x1f\n /0123459@AZaz\xc3\xa9";
        let mut data: Vec<u8> = (0..n).map(|_| *c.r.pick(alphabet)).collect();
        if c.r.bool() {
            let mut d = b"012A ".to_vec();
            d.extend(data);
            d.extend(b"\x1e\n");
            data = d;
        }
        observe(c, &data)
    });
    let seeds = seeds();
    for (k, s) in seeds.iter().enumerate() {
        let n = s.len() * 256 + (s.len() + 1) * 256 + s.len();
        ctx.run(&format!("neighbours{k}"), n as u64, n as u64, |c| {
            match neighbours(s, c.idx as usize) {
                Some(d) => observe(c, &d),
                None => Ok(()),
            }
        });
    }
    ctx.exhausted("single-byte replacements, insertions and deletions of 4 records");
    // every tag, every occurrence, every code
    ctx.run("tags", 8100, 8100, |c| {
        let i = c.idx as usize;
        let last = b"@ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 27];
        let tag = format!("{}{:02}{}", i / 27 / 100, i / 27 % 100, last as char);
        let data = format!("{tag} \u{1f}ax\u{1e}\n").into_bytes();
        if TagRef::new(&tag).is_err() || Tag::new(&tag).is_err() {
            return Err(format!("the tag {tag} is rejected"));
        }
        observe(c, &data)
    });
    ctx.run("occurrences", 11_110, 11_110, |c| {
        let i = c.idx as usize;
        let (w, n) = match i {
            0..10 => (1, i),
            10..110 => (2, i - 10),
            110..1110 => (3, i - 110),
            _ => (4, i - 1110),
        };
        let occ = format!("{n:0w$}");
        let ok = w == 2 || w == 3;
        if OccurrenceRef::new(&occ).is_ok() != ok
            || Occurrence::new(&occ).is_ok() != ok
            || OccurrenceRef::from_bytes(occ.as_bytes()).is_ok() != ok
        {
            return Err(format!("occurrence {occ} should be valid: {ok}"));
        }
        observe(c, format!("012A/{occ} \u{1f}ax\u{1e}\n").as_bytes())
    });
    ctx.run("codes", 256, 256, |c| {
        let b = c.idx as u8;
        let ok = b.is_ascii_alphanumeric();
        let ch = b as char;
        if SubfieldCode::new(ch).is_ok() != ok
            || SubfieldRef::new(ch, "x").is_ok() != ok
            || Subfield::new(ch, "x").is_ok() != ok
            || SubfieldRef::from_bytes(&[0x1f, b, b'x']).is_ok() != ok
        {
            return Err(format!("code {b:#x} should be valid: {ok}"));
        }
        let v = ["a", &ch.to_string(), "b"].concat();
        let vok = b != 0x1e && b != 0x1f;
        if SubfieldValueRef::new(&v).is_ok() != vok
            || SubfieldValue::new(&v).is_ok() != vok
            || SubfieldRef::new('a', &v).is_ok() != vok
            || Subfield::new('a', &v).is_ok() != vok
            || SubfieldValueRef::from_bytes(&[b'a', b, b'b']).is_ok() != vok
        {
            return Err(format!("value with byte {b:#x} should be valid: {vok}"));
        }
        Ok(())
    });
    ctx.exhausted("all 8100 tags; all numbers of 1 to 4 digits as occurrences; all 256 bytes as subfield codes and in values");
    // construction from parts
    ctx.run("construct", 15_000, 500_000, |c| {
        let o = Opts { utf8: true, ..Default::default() };
        let mut rec = generate::record(&mut c.r, &o);
        let mut texts: Vec<(String, Option<String>, Vec<(char, String)>)> = rec
            .fields
            .iter()
            .map(|f| {
                (
                    f.tag_str().to_string(),
                    f.occ.as_ref().map(|o| String::from_utf8(o.clone()).unwrap()),
                    f.subs
                        .iter()
                        .map(|s| (s.code as char, String::from_utf8(s.value.clone()).unwrap()))
                        .collect(),
                )
            })
            .collect();
        let mut ok = true;
        if c.r.chance(1, 2) {
            let i = c.r.below(texts.len());
            let t = &mut texts[i];
            match c.r.below(5) {
                0 => {
                    t.0 = c.r.pick(&["003", "303@", "03@", "0A3@", "003a", "003@ ", ""]).to_string();
                    ok = false;
                }
                1 => {
                    t.1 = Some(c.r.pick(&["0", "1000", "", "0a", "/01", "1 "]).to_string());
                    ok = false;
                }
                2 => {
                    t.2.push((*c.r.pick(&['!', ' ', 'é', '\u{1f}', '-']), "x".into()));
                    ok = false;
                }
                3 => {
                    t.2.push(('a', c.r.pick(&["a\u{1e}", "\u{1f}b", "\u{1e}"]).to_string()));
                    ok = false;
                }
                _ => {
                    t.2.push(('a', "a\nb".into()));
                    rec.fields[i].subs.push(Sub { code: b'a', value: b"a\nb".to_vec() });
                }
            }
        }
        let parts: Vec<_> = texts
            .iter()
            .map(|(t, o, s)| {
                (
                    t.as_str(),
                    o.as_deref(),
                    s.iter().map(|(c, v)| (*c, v.as_str())).collect::<Vec<_>>(),
                )
            })
            .collect();
        let built = RecordRef::new(parts.clone());
        c.count(if ok { "records built" } else { "parts rejected" }, 1);
        for (i, p) in parts.iter().enumerate() {
            let f = FieldRef::new(p.0, p.1, p.2.clone()).is_ok();
            let g = Field::new(p.0, p.1, p.2.clone()).is_ok();
            if f != g || (ok && !f) {
                return Err(format!("field {i} of {parts:?}: borrowed {f}, owned {g}"));
            }
        }
        match built {
            Ok(r) if ok => {
                expect_rec("RecordRef::new", &r, &rec)?;
                expect_bytes("RecordRef::new", &write(|o| r.write_to(o)), &rec.encode())
            }
            Err(_) if !ok => Ok(()),
            other => Err(format!("RecordRef::new({parts:?}) is ok: {}", other.is_ok())),
        }
    });
    ctx.run("large", 24, 300, |c| {
        let o = Opts::default();
        let n = *c.r.pick(&[50, 300, 2000]);
        let mut rec = Rec { fields: (0..n).map(|_| generate::field(&mut c.r, &o)).collect() };
        let i = c.r.below(n);
        let value: Vec<u8> = (0..c.r.range(1, 300_000))
            .map(|k| b"abc\xc3\xa9"[k % 5])
            .collect();
        rec.fields[i].subs.push(Sub { code: b'x', value });
        let many = c.r.range(1, 3000);
        for k in 0..many {
            rec.fields[0].subs.push(Sub { code: b'y', value: k.to_string().into_bytes() });
        }
        let mut data = rec.encode();
        if c.r.bool() {
            let at = data.len() - c.r.range(1, 40);
            data[at] = *c.r.pick(b"\x1e\x1f\n \xff");
        }
        observe(c, &data)
    });
    ctx.run("long", 600, 20_000, |c| {
        let o = Opts { lf: true, ..Opts::default() };
        let mut rec = generate::record(&mut c.r, &o);
        for _ in 0..c.r.range(1, 3) {
            let len = generate::edge(&mut c.r, 5, 17);
            let value = generate::long(&mut c.r, &o, len);
            let i = c.r.below(rec.fields.len());
            let f = &mut rec.fields[i];
            let k = c.r.below(f.subs.len() + 1);
            f.subs.insert(k, Sub { code: b'a', value });
        }
        let mut data = rec.encode();
        if c.r.chance(1, 3) {
            mutate(&mut c.r, &mut data);
        }
        observe(c, &data)
    });
    ctx.run("huge", 2, 100, |c| {
        let o = Opts::default();
        let mut rec = generate::record(&mut c.r, &o);
        let what = c.idx % 3;
        match what {
            0 => {
                let len = c.r.range(1 << 20, 9 << 20);
                let value = generate::long(&mut c.r, &o, len);
                rec.fields[0].subs.push(Sub { code: b'a', value });
            }
            1 => {
                for k in 0..70_000 {
                    rec.fields[0].subs.push(Sub { code: b'y', value: vec![b'0' + (k % 10) as u8] });
                }
                rec.fields[0].subs.push(Sub { code: b'z', value: generate::value(&mut c.r, &o) });
            }
            _ => {
                let f = rec.fields[0].clone();
                let at = c.r.below(rec.fields.len());
                rec.fields.splice(at..at, (0..67_000).map(|_| f.clone()));
            }
        }
        c.count("huge records", 1);
        observe(c, &rec.encode())
    });
    // serialization of the record keeps its content
    ctx.require("records accepted", 1000);
    ctx.require("byte strings rejected", 1000);
    ctx.require("records that are no text", 100);
}

// ---------------------------------------------------------------- C12

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn predicate(r: &mut Rng, rec: &Rec) -> (TagPat, OccPat) {
    if rec.fields.is_empty() || r.chance(1, 5) {
        return random_pattern(r);
    }
    let f = r.pick(&rec.fields).clone();
    (TagPat::near(r, &f.tag, 40), OccPat::near(r, f.occ.as_deref()))
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule(
        "A case applies a random sequence of keep, discard, retain and deref_mut reductions to \
         a record and checks all views of it (fields, written bytes, SHA-256, Hash, equality, \
         PPN, paths, filters, text record) against the list of fields the model keeps. A \
         situation is the sequence of operations with the number of fields it leaves.",
    );
    ctx.run("reduce", 25_000, 1_500_000, |c| {
        let o = Opts {
            max_fields: *c.r.pick(&[3, 6, 15]),
            utf8: c.r.bool(),
            ..Default::default()
        };
        let rec = generate::record(&mut c.r, &o);
        let data = rec.encode();
        let mut byte = if c.r.chance(1, 5) {
            ByteRecord::from(RecordRef::from_bytes(&data).unwrap())
        } else {
            ByteRecord::from_bytes(&data).unwrap()
        };
        let text = rec.is_utf8() && c.r.bool();
        let mut string = None;
        if text {
            let b = ByteRecord::from_bytes(&data).unwrap();
            string = StringRecord::try_from(b).ok();
        }
        let mut want = rec.clone();
        let mut sig = String::new();
        let mut log = vec![];
        for _ in 0..c.r.range(1, 4) {
            let n = c.r.range(0, 3);
            let preds: Vec<_> = (0..n).map(|_| predicate(&mut c.r, &rec)).collect();
            let texts: Vec<(String, String)> =
                preds.iter().map(|(t, o)| (t.text(), o.text(&mut c.r))).collect();
            let lib: Vec<(TagMatcher, OccurrenceMatcher)> = texts
                .iter()
                .map(|(t, o)| {
                    Ok((
                        TagMatcher::new(t).map_err(|e| e.to_string())?,
                        OccurrenceMatcher::new(o).map_err(|e| e.to_string())?,
                    ))
                })
                .collect::<Result<_, String>>()?;
            let hit = |f: &Fld| preds.iter().any(|(t, o)| field_matches(t, o, f));
            let op = c.r.below(5);
            log.push(format!("{} {texts:?}", ["keep", "discard", "retain", "retain via deref_mut", "copy"][op]));
            match op {
                0 => {
                    byte.keep(&lib);
                    if let Some(s) = &mut string {
                        s.keep(&lib)
                    }
                    if n > 0 {
                        want.fields.retain(hit);
                    }
                }
                1 => {
                    byte.discard(&lib);
                    if let Some(s) = &mut string {
                        s.discard(&lib)
                    }
                    if n > 0 {
                        want.fields.retain(|f| !hit(f));
                    }
                }
                2 | 3 => {
                    let m = c.r.range(1, 3);
                    let f = |f: &FieldRef| f.subfields().len() % m == 0;
                    if op == 2 {
                        byte.retain(f);
                        if let Some(s) = &mut string {
                            s.retain(f)
                        }
                    } else {
                        let r: &mut RecordRef = &mut byte;
                        r.retain(f);
                        if let Some(s) = &mut string {
                            let r: &mut RecordRef = &mut *s;
                            r.retain(f);
                        }
                    }
                    want.fields.retain(|f| f.subs.len() % m == 0);
                }
                _ => {
                    // continue on a copy made from the reference
                    byte = ByteRecord::from((*byte).clone());
                }
            }
            sig += &format!("{op}{}", n.min(2));
            c.count("reductions", 1);
            let descr = || format!("record '{}'\nafter {log:?}", show(&data));
            check_views(c, &byte, &want).map_err(|m| format!("{m}\n{}", descr()))?;
            if let Some(s) = &string {
                check_views(c, s, &want).map_err(|m| format!("text record: {m}\n{}", descr()))?;
            }
        }
        c.sig(&format!("{sig}/{}/{}", want.fields.len().min(8), rec.fields.len().min(8)));
        if want.fields.is_empty() {
            c.count("records reduced to nothing", 1);
        }
        if want.fields.len() == rec.fields.len() {
            c.count("records left unchanged", 1);
        }
        c.sample(|| json!({"record": show(&data), "operations": log, "left": want.fields.len()}));
        Ok(())
    });
    ctx.require("reductions", 1000);
    ctx.require("records reduced to nothing", 50);
}

fn check_views(c: &mut Case, byte: &ByteRecord, want: &Rec) -> Verdict {
    expect_rec("fields", byte, want)?;
    let enc = if want.fields.is_empty() { vec![] } else { want.encode() };
    expect_bytes("write_to", &write(|o| byte.write_to(o)), &enc)?;
    if byte.is_empty() != want.fields.is_empty() {
        return Err("is_empty".into());
    }
    if byte.sha256() != sha256(&enc) {
        return Err("sha256 is not the digest of the written record".into());
    }
    let reff = RecordRef::from_bytes(&enc).ok();
    if reff.is_none() != want.fields.is_empty() {
        return Err("the written record cannot be read back".into());
    }
    if let Some(reff) = reff {
        let fresh = ByteRecord::from_bytes(&enc).unwrap();
        if *byte != fresh || fresh != *byte {
            return Err("not equal to a record read from the written bytes".into());
        }
        if hash(byte) != hash(&fresh) {
            return Err("hash differs from that of an equal record".into());
        }
        if hash(&ByteRecord::from(reff)) != hash(&fresh) {
            return Err("hash of a copy differs".into());
        }
        c.count("views compared", 6);
    }
    // a record with one more field is not equal
    if !want.fields.is_empty() {
        let mut other = want.clone();
        let k = c.r.below(other.fields.len());
        match c.r.below(3) {
            0 => {
                let f = other.fields[k].clone();
                other.fields.push(f);
            }
            1 if other.fields.len() > 1 => {
                other.fields.remove(k);
            }
            _ => other.fields[k].subs.push(Sub { code: b'q', value: b"q".to_vec() }),
        }
        let enc = other.encode();
        let o = ByteRecord::from_bytes(&enc).unwrap();
        if *byte == o || o == *byte {
            return Err(format!("equal to a different record '{}'", show(&enc)));
        }
        if o.sha256() == byte.sha256() {
            return Err("same digest as a different record".into());
        }
    }
    if byte.ppn().map(|v| v.to_vec()).as_deref() != want.ppn() {
        return Err("PPN".into());
    }
    // queries see the reduced record
    let p = model::query::Path::random(&mut c.r, Some(want));
    let text = p.text(&mut c.r, &Style::plain());
    let path = Path::new(&text).map_err(|e| e.to_string())?;
    let got: Vec<Vec<u8>> =
        byte.path(&path, &MatcherOptions::default()).map(|v| v.to_vec()).collect();
    let exp = p.values(want, &MOpts::default());
    if got != exp {
        return Err(format!("path {text} yields {got:?} but should yield {exp:?}"));
    }
    let cond = cond_for(&mut c.r, want, 1);
    let text = cond.text(&mut c.r, &Style::plain());
    let m = RecordMatcher::new(&text).map_err(|e| e.to_string())?;
    let exp = cond.eval(want, &MOpts::default());
    if m.is_match(byte, &MatcherOptions::default()) != exp {
        return Err(format!("filter {text} should be {exp} on the reduced record"));
    }
    Ok(())
}
