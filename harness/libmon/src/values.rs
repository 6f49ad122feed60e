//! C34: records and pieces of records built in code.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

use model::generate;
use model::mon::*;
use model::rec::*;
use model::rng::Rng;
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::conv::*;

// The grammar, restated.

fn is_tag(t: &[u8]) -> bool {
    t.len() == 4
        && (b'0'..=b'2').contains(&t[0])
        && t[1].is_ascii_digit()
        && t[2].is_ascii_digit()
        && (t[3].is_ascii_uppercase() || t[3] == b'@')
}

/// The digits, without the slash that precedes them in a record.
fn is_occ(o: &[u8]) -> bool {
    (o.len() == 2 || o.len() == 3) && o.iter().all(u8::is_ascii_digit)
}

fn is_value(v: &[u8]) -> bool {
    !v.contains(&0x1e) && !v.contains(&0x1f)
}

fn is_code(c: char) -> bool {
    c.is_ascii_alphanumeric()
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T, about: &dyn std::fmt::Debug) -> Verdict {
    if got == want {
        return Ok(());
    }
    Err(format!("{what}: got {got:?}, expected {want:?}; {about:?}"))
}

// Generators.

fn text_tag(r: &mut Rng) -> String {
    let mut t: Vec<char> = r.pick(&generate::TAGS).chars().collect();
    if r.chance(1, 3) {
        t = format!("{}{:02}{}", r.below(3), r.below(100), *r.pick(b"@AZMB") as char).chars().collect();
    }
    spoil(r, &mut t, &['3', 'a', '@', '[', 'A', '0', '9', '/', 'Ａ', '٣', '.', ' ']);
    t.into_iter().collect()
}

fn text_occ(r: &mut Rng) -> String {
    let mut t: Vec<char> = r.pick(&generate::OCCS).chars().collect();
    if r.chance(1, 3) {
        let n = r.below(1000);
        t = format!("{n:0w$}", w = r.range(2, 3)).chars().collect();
    }
    spoil(r, &mut t, &['0', '1', '9', ':', '/', 'a', '٣', ' ', '*']);
    t.into_iter().collect()
}

fn spoil(r: &mut Rng, t: &mut Vec<char>, with: &[char]) {
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2]) {
        match r.below(3) {
            0 if !t.is_empty() => {
                let i = r.below(t.len());
                t.remove(i);
            }
            1 if !t.is_empty() => {
                let i = r.below(t.len());
                t[i] = *r.pick(with);
            }
            _ => {
                let i = r.below(t.len() + 1);
                t.insert(i, *r.pick(with));
            }
        }
    }
}

fn text_value(r: &mut Rng) -> String {
    let mut t: Vec<char> = match r.below(8) {
        0 => (0..r.range(0, 200)).map(|_| *r.pick(&['a', 'é', '𝄞', '\n', ' '])).collect(),
        _ => generate::text(r, &generate::Opts { utf8: true, lf: true, ..Default::default() }).chars().collect(),
    };
    if r.chance(1, 3) {
        spoil(r, &mut t, &['\u{1e}', '\u{1f}', '\u{1d}', '\n', 'x', '\u{9e}', '\u{11e}', '\0']);
    }
    t.into_iter().collect()
}

fn any_code(r: &mut Rng) -> char {
    match r.below(6) {
        0 => *r.pick(&['é', '/', ':', '@', '[', '`', '{', '\u{1f}', '٣', 'ａ', '\u{130}', '\u{161}', '$', ' ', '\n', '\0']),
        _ => *r.pick(generate::CODES) as char,
    }
}

/// Every way to build a piece accepts exactly the grammar, and the piece is
/// what was asked for.
fn construct(c: &mut Case) -> Verdict {
    let r = &mut c.r;
    let (tag, occ, code, value) = (text_tag(r), text_occ(r), any_code(r), text_value(r));
    let about = format!("tag {tag:?}, occurrence {occ:?}, code {code:?}, value {value:?}");
    let (t_ok, o_ok, c_ok, v_ok) =
        (is_tag(tag.as_bytes()), is_occ(occ.as_bytes()), is_code(code), is_value(value.as_bytes()));
    c.sig(&format!("{t_ok}{o_ok}{c_ok}{v_ok}/{}/{}/{}", tag.len().min(8), occ.len().min(8), value.len().min(20)));
    c.count("pieces the grammar allows", [t_ok, o_ok, c_ok, v_ok].iter().filter(|b| **b).count() as u64);
    c.count("pieces the grammar forbids", [t_ok, o_ok, c_ok, v_ok].iter().filter(|b| !**b).count() as u64);
    // tags
    eq("TagRef::new", TagRef::new(&tag).is_ok(), t_ok, &about)?;
    eq("TagRef::from_bytes", TagRef::from_bytes(&tag).is_ok(), t_ok, &about)?;
    eq("Tag::new", Tag::new(&tag).is_ok(), t_ok, &about)?;
    if t_ok {
        let (a, b) = (TagRef::new(&tag).unwrap(), Tag::new(&tag).unwrap());
        eq("Display of TagRef", a.to_string(), tag.clone(), &about)?;
        eq("Display of Tag", b.to_string(), tag.clone(), &about)?;
        let mut out = vec![];
        b.write_to(&mut out).unwrap();
        eq("Tag::write_to", out, tag.clone().into_bytes(), &about)?;
        let level = [Level::Main, Level::Local, Level::Copy][(tag.as_bytes()[0] - b'0') as usize].clone();
        eq("level", a.level(), level, &about)?;
    }
    // occurrences
    let slashed = format!("/{occ}");
    for (text, want) in [(&occ, o_ok), (&slashed, false)] {
        eq("OccurrenceRef::new", OccurrenceRef::new(text).is_ok(), want, &text)?;
        eq("OccurrenceRef::from_bytes", OccurrenceRef::from_bytes(text).is_ok(), want, &text)?;
        eq("Occurrence::new", Occurrence::new(text).is_ok(), want, &text)?;
    }
    if o_ok {
        let (a, b) = (OccurrenceRef::new(&occ).unwrap(), Occurrence::new(&occ).unwrap());
        eq("OccurrenceRef::as_bytes", a.as_bytes(), occ.as_bytes(), &about)?;
        eq("Occurrence::as_bytes", b.as_bytes(), occ.as_bytes(), &about)?;
        eq("Occurrence::len", b.len(), occ.len(), &about)?;
        for (what, out) in [
            ("OccurrenceRef::write_to", { let mut o = vec![]; a.write_to(&mut o).unwrap(); o }),
            ("Occurrence::write_to", { let mut o = vec![]; b.write_to(&mut o).unwrap(); o }),
        ] {
            eq(what, out, slashed.clone().into_bytes(), &about)?;
        }
    }
    // codes and values
    eq("SubfieldCode::new", SubfieldCode::new(code).is_ok(), c_ok, &about)?;
    if let Ok(k) = SubfieldCode::new(code) {
        eq("SubfieldCode::as_byte", k.as_byte(), code as u8, &about)?;
        eq("Display of SubfieldCode", k.to_string(), code.to_string(), &about)?;
        eq("SubfieldCode as char", *k, code, &about)?;
        eq("SubfieldCode == char", k == code, true, &about)?;
    }
    eq("SubfieldValueRef::new", SubfieldValueRef::new(&value).is_ok(), v_ok, &about)?;
    eq("SubfieldValue::new", SubfieldValue::new(&value).is_ok(), v_ok, &about)?;
    let mut raw = value.clone().into_bytes();
    if c.r.chance(1, 3) {
        let i = c.r.below(raw.len() + 1);
        raw.insert(i, *c.r.pick(&[0xff, 0x1e, 0x1f, 0xc3, 0x80, 0x9f, 0x9e]));
    }
    eq("SubfieldValueRef::from_bytes", SubfieldValueRef::from_bytes(&raw).is_ok(), is_value(&raw), &show(&raw))?;
    if let Ok(v) = SubfieldValueRef::from_bytes(&raw) {
        expect_bytes("SubfieldValueRef::as_bytes", v.as_bytes(), &raw)?;
        let o = SubfieldValue::from(v);
        expect_bytes("SubfieldValue::as_bytes", o.as_bytes(), &raw)?;
    }
    // subfields
    let ok = c_ok && v_ok;
    eq("SubfieldRef::new", SubfieldRef::new(code, &value).is_ok(), ok, &about)?;
    eq("Subfield::new", Subfield::new(code, &value).is_ok(), ok, &about)?;
    let mut enc = vec![0x1f];
    enc.extend(code.to_string().bytes());
    enc.extend(&raw);
    eq("SubfieldRef::from_bytes", SubfieldRef::from_bytes(&enc).is_ok(), c_ok && is_value(&raw), &show(&enc))?;
    if ok {
        let (a, b) = (SubfieldRef::new(code, &value).unwrap(), Subfield::new(code, &value).unwrap());
        eq("a borrowed and an owned subfield", a == b, true, &about)?;
        eq("SubfieldRef::code", a.code().as_byte() as char, code, &about)?;
        eq("Subfield::code", b.code().as_byte() as char, code, &about)?;
        expect_bytes("SubfieldRef::value", a.value().as_bytes(), value.as_bytes())?;
        expect_bytes("Subfield::value", b.value().as_bytes(), value.as_bytes())?;
    }
    Ok(())
}

type Parts = (String, Option<String>, Vec<(char, String)>);

fn parts(r: &mut Rng, bad: bool) -> Parts {
    let tag = if bad && r.chance(1, 4) { text_tag(r) } else { r.pick(&generate::TAGS).to_string() };
    let occ = match r.below(3) {
        0 => None,
        1 if bad => Some(text_occ(r)),
        _ => Some(r.pick(&generate::OCCS).to_string()),
    };
    let n = r.small(8);
    let subs = (0..n)
        .map(|_| {
            let code = if bad && r.chance(1, 6) { any_code(r) } else { *r.pick(generate::CODES) as char };
            let mut value = text_value(r);
            if !bad || r.chance(2, 3) {
                value.retain(|c| c != '\u{1e}' && c != '\u{1f}');
            }
            (code, value)
        })
        .collect();
    (tag, occ, subs)
}

fn good(p: &Parts) -> bool {
    is_tag(p.0.as_bytes())
        && p.1.as_ref().is_none_or(|o| is_occ(o.as_bytes()))
        && p.2.iter().all(|(c, v)| is_code(*c) && is_value(v.as_bytes()))
}

fn model_of(p: &Parts) -> Fld {
    Fld {
        tag: p.0.as_bytes().try_into().unwrap(),
        occ: p.1.as_ref().map(|o| o.as_bytes().to_vec()),
        subs: p.2.iter().map(|(c, v)| Sub { code: *c as u8, value: v.clone().into_bytes() }).collect(),
    }
}

fn subs_of(p: &Parts) -> Vec<(char, &str)> {
    p.2.iter().map(|(c, v)| (*c, v.as_str())).collect()
}

/// Fields and records from parts.
fn build(c: &mut Case) -> Verdict {
    let bad = c.r.bool();
    let n = c.r.range(0, 5);
    let fields: Vec<Parts> = (0..n).map(|_| parts(&mut c.r, bad)).collect();
    let about = format!("{fields:?}");
    let ok = fields.iter().all(good);
    c.sig(&format!("{ok}/{n}/{}", fields.iter().map(|f| f.2.len()).max().unwrap_or(0)));
    for p in &fields {
        let a = FieldRef::new(&p.0, p.1.as_deref(), subs_of(p));
        let b = Field::new(&p.0, p.1.as_deref(), subs_of(p));
        eq("FieldRef::new", a.is_ok(), good(p), p)?;
        eq("Field::new", b.is_ok(), good(p), p)?;
        let (Ok(a), Ok(b)) = (a, b) else { continue };
        let want = model_of(p);
        let got = fld(&a)?;
        eq("the new field", &got, &want, p)?;
        let mut enc = vec![];
        want.encode(&mut enc);
        let mut out = vec![];
        b.write_to(&mut out).unwrap();
        expect_bytes("Field::write_to", &out, &enc)?;
        let c2 = FieldRef::from_bytes(&enc).map_err(|e| format!("{e:?}; {p:?}"))?;
        eq("new and decoded field", (a == c2, a == b, b == a, Field::from(c2) == b), (true, true, true, true), p)?;
    }
    let list: Vec<_> = fields.iter().map(|p| (p.0.as_str(), p.1.as_deref(), subs_of(p))).collect();
    let rec = RecordRef::new(list);
    eq("RecordRef::new", rec.is_ok(), ok, &about)?;
    let Ok(rec) = rec else {
        c.count("records refused", 1);
        return Ok(());
    };
    c.count("records built", 1);
    let want = Rec { fields: fields.iter().map(model_of).collect() };
    expect_rec("RecordRef::new", &rec, &want)?;
    eq("is_empty", rec.is_empty(), n == 0, &about)?;
    // a record without fields has no encoding
    let enc = if n == 0 { vec![] } else { want.encode() };
    for (what, out) in [
        ("RecordRef::write_to", { let mut o = vec![]; rec.write_to(&mut o).unwrap(); o }),
        ("Record::write_to", { let mut o = vec![]; Record::from(rec.clone()).write_to(&mut o).unwrap(); o }),
        ("ByteRecord::write_to", { let mut o = vec![]; ByteRecord::from(rec.clone()).write_to(&mut o).unwrap(); o }),
    ] {
        expect_bytes(what, &out, &enc)?;
    }
    let sum = ByteRecord::from(rec.clone()).sha256();
    eq("sha256", sum, sha256(&enc), &about)?;
    if rec.ppn().map(|v| v.to_vec()) != want.ppn().map(|v| v.to_vec()) {
        return Err(format!("PPN of the new record; {about}"));
    }
    // accessors of a field by predicate
    for (f, w) in rec.fields().iter().zip(&want.fields) {
        let code = *c.r.pick(generate::CODES) as char;
        eq("contains", f.contains(code), w.subs.iter().any(|s| s.code as char == code), &about)?;
        let value = w.subs.get(1).or(w.subs.first()).map(|s| s.value.clone()).unwrap_or_default();
        let got = f.find(|s| s.value().as_bytes() == &value[..]).map(|s| s.code().as_byte());
        eq("find", got, w.subs.iter().find(|s| s.value == value).map(|s| s.code), &about)?;
        let n = f.into_iter().count();
        let m: usize = f.subfields().iter().map(|s| s.into_iter().count()).sum();
        eq("iteration", (n, m), (1, w.subs.len()), &about)?;
    }
    // retain
    let mut kept = rec.clone();
    let mut seen = vec![];
    kept.retain(|f| {
        seen.push(tag_bytes(f.tag()));
        f.occurrence().is_none()
    });
    let mut want_kept = want.clone();
    want_kept.fields.retain(|f| f.occ.is_none());
    expect_rec("retain", &kept, &want_kept)?;
    eq("fields shown to retain", seen, want.fields.iter().map(|f| f.tag.to_vec()).collect(), &about)
}

/// A value, and a value that is the same or nearly so.
fn near(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut w = v.to_vec();
    match r.below(8) {
        0..3 => (),
        3 => {
            w.pop();
        }
        4 => w.push(*r.pick(&[b' ', b'0', 0, b'a', 0xff])),
        5 if !w.is_empty() => {
            let i = r.below(w.len());
            w[i] ^= *r.pick(&[0x20, 0x01, 0x80]);
        }
        6 if !w.is_empty() => {
            let i = r.below(w.len());
            let b = w.remove(i);
            w.insert(r.below(w.len() + 1), b);
        }
        _ => w.reverse(),
    }
    if is_value(&w) { w } else { v.to_vec() }
}

fn near_rec(r: &mut Rng, rec: &Rec) -> Rec {
    let mut b = rec.clone();
    if b.fields.is_empty() {
        return b;
    }
    let i = r.below(b.fields.len());
    let k = b.fields[i].subs.len();
    match r.below(12) {
        0..3 => (),
        3 if b.fields.len() > 1 => {
            b.fields.remove(i);
        }
        4 => b.fields.push(b.fields[i].clone()),
        5 => {
            let j = r.below(b.fields.len());
            b.fields.swap(i, j);
        }
        6 => b.fields[i].tag[3] = *r.pick(b"@ABZ"),
        7 => {
            b.fields[i].occ = match &b.fields[i].occ {
                None => Some(b"00".to_vec()),
                Some(o) if o.len() == 2 => r.pick(&[None, Some([b"0", &o[..]].concat())]).clone(),
                Some(o) => r.pick(&[None, Some(o[1..].to_vec())]).clone(),
            }
        }
        8 if k > 0 => {
            let j = r.below(k);
            b.fields[i].subs.remove(j);
        }
        9 if k > 0 => {
            let (j, l) = (r.below(k), r.below(k));
            b.fields[i].subs.swap(j, l);
        }
        10 if k > 0 => {
            let j = r.below(k);
            b.fields[i].subs[j].code ^= 0x20;
            if !b.fields[i].subs[j].code.is_ascii_alphanumeric() {
                b.fields[i].subs[j].code = b'x';
            }
        }
        _ if k > 0 => {
            let j = r.below(k);
            let v = near(r, &b.fields[i].subs[j].value.clone());
            b.fields[i].subs[j].value = v;
        }
        // the last value of one field moves to the next
        _ => b.fields[i].subs.push(Sub { code: b'a', value: vec![] }),
    }
    b
}

/// Two pieces are equal, ordered and hashed by what they hold.
fn pairs(c: &mut Case) -> Verdict {
    // values
    let a = generate::value(&mut c.r, &generate::Opts { lf: true, ..Default::default() });
    if !is_value(&a) {
        return inconclusive("the generator made an invalid value");
    }
    let b = near(&mut c.r, &a);
    let same = a == b;
    let about = format!("'{}' and '{}'", show(&a), show(&b));
    let (ra, rb) = (SubfieldValueRef::from_bytes(&a).unwrap(), SubfieldValueRef::from_bytes(&b).unwrap());
    let (oa, ob) = (SubfieldValue::from(ra.clone()), SubfieldValue::from(rb.clone()));
    c.count(if same { "equal pairs of values" } else { "unequal pairs of values" }, 1);
    eq("equality of values", (ra == rb, oa == ob, ra == ob, oa == rb), (same, same, same, same), &about)?;
    eq("value and bytes", (ra == b, oa == b, rb == a), (same, same, same), &about)?;
    if let (Ok(sa), Ok(sb)) = (std::str::from_utf8(&a), std::str::from_utf8(&b)) {
        eq("value and text", (ra == *sb, oa == *sb, rb == *sa, ob == *sa), (same, same, same, same), &about)?;
    }
    let order = Some(a.cmp(&b));
    eq("order of values", (ra.partial_cmp(&rb), oa.partial_cmp(&ob)), (order, order), &about)?;
    if same {
        eq("hash of values", (hash_of(&ra), hash_of(&oa)), (hash_of(&rb), hash_of(&ob)), &about)?;
    }
    // subfields
    let ka = *c.r.pick(generate::CODES);
    let kb = if c.r.bool() { ka } else { *c.r.pick(generate::CODES) };
    let enc = |k: u8, v: &[u8]| [&[0x1f, k], v].concat();
    let (ea, eb) = (enc(ka, &a), enc(kb, &b));
    let (sa, sb) = (SubfieldRef::from_bytes(&ea).unwrap(), SubfieldRef::from_bytes(&eb).unwrap());
    let (pa, pb) = (Subfield::from(sa.clone()), Subfield::from(sb.clone()));
    let same_sub = same && ka == kb;
    eq("equality of subfields", (sa == sb, pa == pb, sa == pb), (same_sub, same_sub, same_sub), &about)?;
    eq("order of codes", sa.code().partial_cmp(sb.code()), Some(ka.cmp(&kb)), &about)?;
    eq("equality of codes", (sa.code() == sb.code(), *sa.code() == kb as char), (ka == kb, ka == kb), &about)?;
    if same_sub {
        eq("hash of subfields", (hash_of(&sa), hash_of(&pa)), (hash_of(&sb), hash_of(&pb)), &about)?;
    }
    // tags and occurrences
    let (ta, tb) = (*c.r.pick(&generate::TAGS), *c.r.pick(&generate::TAGS));
    let (x, y) = (TagRef::new(ta).unwrap(), TagRef::new(tb).unwrap());
    let (xo, yo) = (Tag::new(ta).unwrap(), Tag::new(tb).unwrap());
    let s = ta == tb;
    eq(
        "equality of tags",
        [x == y, xo == yo, x == yo, xo == y, x == tb, &x == tb, xo == tb],
        [s; 7],
        &(ta, tb),
    )?;
    // texts of any kind
    let text = match c.r.below(8) {
        0 => ta[..c.r.below(4)].to_string(),
        1 => format!("{ta}{}", c.r.pick(&["A", " ", "/01", "@"])),
        2 => ta.to_lowercase(),
        3 => format!(" {ta}"),
        4 => format!("{}{}", &ta[..3], c.r.pick(&['A', 'B', '@', 'Z', 'É'])),
        5 => ta[1..].to_string(),
        6 => String::new(),
        _ => ta.to_string(),
    };
    let s = ta == text;
    let t = text.as_str();
    eq("tag and text", [x == t, &x == t, xo == t, x.to_string() == t, xo.to_string() == t], [s; 5], &(ta, t))?;
    let (va, vb) = (*c.r.pick(&generate::OCCS), *c.r.pick(&generate::OCCS));
    let (x, y) = (OccurrenceRef::new(va).unwrap(), OccurrenceRef::new(vb).unwrap());
    let (xo, yo) = (Occurrence::new(va).unwrap(), Occurrence::new(vb).unwrap());
    let s = va == vb;
    eq("equality of occurrences", [x == y, xo == yo, x == yo, x == vb, xo == vb], [s; 5], &(va, vb))?;
    let order = Some(va.as_bytes().cmp(vb.as_bytes()));
    eq("order of occurrences", (x.partial_cmp(&y), xo.partial_cmp(&yo)), (order, order), &(va, vb))?;
    let text = match c.r.below(6) {
        0 => va[..c.r.below(2)].to_string(),
        1 => format!("{va}{}", c.r.pick(&["0", " ", "1"])),
        2 => format!("/{va}"),
        3 => va[1..].to_string(),
        4 => format!("0{va}"),
        _ => va.to_string(),
    };
    let t = text.as_str();
    eq("occurrence and text", [x == t, xo == t, x == text.as_bytes()], [va == text; 3], &(va, t))?;
    // records
    let o = generate::Opts { lf: true, max_fields: *c.r.pick(&[1, 2, 5]), ..Default::default() };
    let a = generate::record(&mut c.r, &o);
    let b = near_rec(&mut c.r, &a);
    let same = a == b;
    c.sig(&format!("{same}/{}/{}/{}/{:?}", a.fields.len(), b.fields.len(), ka == kb, order));
    c.count(if same { "equal pairs of records" } else { "unequal pairs of records" }, 1);
    let (ea, eb) = (a.encode(), b.encode());
    let about = format!("'{}' and '{}'", show(&ea), show(&eb));
    c.sample(|| json!(about));
    if b.fields.is_empty() || Rec::decode(&eb).as_ref() != Some(&b) {
        return inconclusive("the model does not decode its own encoding");
    }
    let (ra, rb) = (RecordRef::from_bytes(&ea).unwrap(), RecordRef::from_bytes(&eb).unwrap());
    let (oa, ob) = (Record::from(ra.clone()), Record::from(rb.clone()));
    eq("equality of records", [ra == rb, ra == ob, oa == rb], [same; 3], &about)?;
    for (x, y) in ra.fields().iter().zip(rb.fields()) {
        let s = fld(x)? == fld(y)?;
        let (xo, yo) = (Field::from(x.clone()), Field::from(y.clone()));
        eq("equality of fields", [x == y, xo == yo, *x == yo, xo == *y], [s; 4], &about)?;
    }
    // with and without the data a record was read from
    let (ea2, eb2) = (ea.clone(), eb.clone());
    let mut lists = vec![];
    for e in [&ea2, &eb2] {
        let mut touched = ByteRecord::from_bytes(e).unwrap();
        touched.retain(|_| true);
        let mut changed = ByteRecord::from_bytes(e).unwrap();
        let n = changed.fields().len();
        let _: &mut RecordRef = &mut changed;
        eq("fields", changed.fields().len(), n, &about)?;
        lists.push([
            ByteRecord::from_bytes(e).unwrap(),
            ByteRecord::from(RecordRef::from_bytes(e).unwrap()),
            touched,
            changed,
        ]);
    }
    for (i, x) in lists[0].iter().enumerate() {
        for (j, y) in lists[1].iter().enumerate() {
            let what = format!("equality of byte records (forms {i} and {j})");
            eq(&what, (x == y, y == x), (same, same), &about)?;
            if same && hash_of(x) != hash_of(y) {
                return Err(format!("equal records (forms {i} and {j}) have different hashes; {about}"));
            }
        }
        eq("sha256", x.sha256(), sha256(&ea), &about)?;
    }
    // a record that has lost fields equals a record that never had them
    let tag = *c.r.pick(&a.fields.iter().map(|f| f.tag).collect::<Vec<_>>());
    let mut cut = ByteRecord::from_bytes(&ea2).unwrap();
    cut.retain(|f| tag_bytes(f.tag()) != tag);
    let mut want = a.clone();
    want.fields.retain(|f| f.tag != tag);
    expect_rec("after retain", &cut, &want)?;
    if !want.fields.is_empty() {
        let e = want.encode();
        let other = ByteRecord::from_bytes(&e).unwrap();
        let s = (cut == other, other == cut, hash_of(&cut) == hash_of(&other), cut.sha256() == other.sha256());
        eq("a record that has lost fields", s, (true, true, true, true), &about)?;
        let orig = ByteRecord::from_bytes(&ea).unwrap();
        eq("a record that has lost fields and its original", (cut == orig, orig == cut), (false, false), &about)?;
        c.count("records that lost fields", 1);
    } else {
        let mut out = vec![];
        cut.write_to(&mut out).unwrap();
        expect_bytes("a record that has lost all fields", &out, b"")?;
    }
    if order == Some(Ordering::Less) {
        c.count("ordered pairs", 1);
    }
    Ok(())
}

fn json_trip<T: Serialize + for<'a> Deserialize<'a>>(x: &T) -> Result<T, String> {
    let s = serde_json::to_string(x).map_err(|e| format!("to JSON: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("from JSON: {e} ({s})"))
}

fn pack<T: Serialize>(x: &T) -> Result<Vec<u8>, String> {
    rmp_serde::to_vec(x).map_err(|e| format!("to MessagePack: {e}"))
}

fn unpack<'a, T: Deserialize<'a>>(v: &'a [u8]) -> Result<T, String> {
    rmp_serde::from_slice(v).map_err(|e| format!("from MessagePack: {e}"))
}

/// What is serialised comes back the same.
fn serde_trips(c: &mut Case) -> Verdict {
    let o = generate::Opts { lf: true, utf8: c.r.bool(), max_fields: *c.r.pick(&[1, 3, 8]), ..Default::default() };
    let a = generate::record(&mut c.r, &o);
    let e = a.encode();
    c.sig(&format!("{}/{}/{}", a.fields.len(), a.is_utf8(), e.len().min(200)));
    c.count("records serialised", 1);
    let about = format!("'{}'", show(&e));
    let rec = RecordRef::from_bytes(&e).unwrap();
    // owned
    let owned = Record::from(rec.clone());
    let back = json_trip(&owned).map_err(|e| format!("Record: {e}; {about}"))?;
    eq("Record", rec == back, true, &about)?;
    let v = pack(&owned)?;
    let back: Record = unpack(&v).map_err(|e| format!("Record: {e}; {about}"))?;
    eq("Record", rec == back, true, &about)?;
    // borrowed
    let v = pack(&rec)?;
    let back: RecordRef = unpack(&v).map_err(|e| format!("RecordRef: {e}; {about}"))?;
    expect_rec("RecordRef", &back, &a)?;
    // from borrowed to owned
    let back: Record = unpack(&v).map_err(|e| format!("RecordRef to Record: {e}; {about}"))?;
    eq("RecordRef to Record", rec == back, true, &about)?;
    // pieces
    for f in rec.fields() {
        let of = Field::from(f.clone());
        eq("Field", json_trip(&of).map_err(|e| format!("Field: {e}; {about}"))? == of, true, &about)?;
        let v = pack(f)?;
        let back: FieldRef = unpack(&v).map_err(|e| format!("FieldRef: {e}; {about}"))?;
        eq("FieldRef", fld(&back)?, fld(f)?, &about)?;
        let tag = Tag::from(f.tag().clone());
        eq("Tag", json_trip(&tag)? == tag, true, &about)?;
        eq("Level", json_trip(&f.level())?, f.level(), &about)?;
        if let Some(o) = f.occurrence() {
            let oo = Occurrence::from(o.clone());
            eq("Occurrence", json_trip(&oo)? == oo, true, &about)?;
            let v = pack(o)?;
            let back: OccurrenceRef = unpack(&v)?;
            eq("OccurrenceRef", back == *o, true, &about)?;
        }
        for s in f.subfields() {
            let os = Subfield::from(s.clone());
            eq("Subfield", json_trip(&os)? == os, true, &about)?;
            eq("SubfieldCode", json_trip(s.code())? == *s.code(), true, &about)?;
            eq("SubfieldValue", json_trip(os.value())? == *os.value(), true, &about)?;
            let v = pack(s)?;
            let back: SubfieldRef = unpack(&v)?;
            eq("SubfieldRef", back == *s, true, &about)?;
        }
    }
    // with and without raw data
    let byte = ByteRecord::from(rec.clone());
    let v = pack(&byte)?;
    let back: ByteRecord = unpack(&v).map_err(|e| format!("ByteRecord without raw data: {e}; {about}"))?;
    eq("ByteRecord without raw data", back == byte, true, &about)?;
    let byte = ByteRecord::from_bytes(&e).unwrap();
    let v = pack(&byte)?;
    let back: ByteRecord = unpack(&v).map_err(|e| format!("ByteRecord: {e}; {about}"))?;
    eq("ByteRecord", back == byte, true, &about)?;
    let mut out = vec![];
    back.write_to(&mut out).unwrap();
    expect_bytes("ByteRecord", &out, &e)?;
    if a.is_utf8() {
        let text = StringRecord::try_from(byte).unwrap();
        let v = pack(&text)?;
        let back: StringRecord = unpack(&v).map_err(|e| format!("StringRecord: {e}; {about}"))?;
        expect_rec("StringRecord", &back, &a)?;
        c.count("text records serialised", 1);
    }
    Ok(())
}

pub fn c34(ctx: &mut Ctx) {
    ctx.rule(
        "A case builds tags, occurrences, codes, values, subfields, fields and records from parts \
         that are within and just outside the grammar ('pieces', 'records'), compares two pieces \
         that are equal or differ in one place in every combination of borrowed, owned, text and \
         bytes ('pairs'), or serialises and reads back ('serde'). A situation is which parts are \
         valid and their sizes, or whether the pair is equal and the sizes.",
    );
    ctx.assume("the grammar restated in harness/libmon/src/values.rs");
    ctx.run("pieces", 60_000, 2_000_000, construct);
    ctx.run("records", 40_000, 2_000_000, build);
    ctx.run("pairs", 60_000, 1_500_000, pairs);
    ctx.run("serde", 10_000, 200_000, serde_trips);
    // every character as a code, every pair of bytes as an occurrence
    ctx.run("codes", 0x3000, 0x3000, |c| {
        let Some(k) = char::from_u32(c.idx as u32) else { return Ok(()) };
        eq("SubfieldCode::new", SubfieldCode::new(k).is_ok(), is_code(k), &k)?;
        let t = format!("{k}1");
        eq("OccurrenceRef::new", OccurrenceRef::new(&t).is_ok(), k.is_ascii_digit(), &t)?;
        for i in 0..4 {
            let mut cs: Vec<char> = "012A".chars().collect();
            cs[i] = k;
            let t: String = cs.into_iter().collect();
            eq("TagRef::new", TagRef::new(&t).is_ok(), is_tag(t.as_bytes()), &t)?;
        }
        let v = format!("a{k}b");
        eq("SubfieldValueRef::new", SubfieldValueRef::new(&v).is_ok(), is_value(v.as_bytes()), &v)?;
        Ok(())
    });
    ctx.exhausted("every character up to U+2FFF as code, in a value, and in every place of a tag");
    ctx.run("levels", 2_000, 100_000, |c| {
        let mut t: Vec<char> = c.r.pick(&["main", "local", "copy", "", "Main", "LOCAL"]).chars().collect();
        spoil(&mut c.r, &mut t, &['m', ' ', 'y', 'l', 'ⅼ']);
        let t: String = t.into_iter().collect();
        let want = match t.as_str() {
            "main" => Some(Level::Main),
            "local" => Some(Level::Local),
            "copy" => Some(Level::Copy),
            _ => None,
        };
        eq("Level::from_str", Level::from_str(&t).ok(), want, &t)
    });
    for k in [
        "pieces the grammar allows",
        "pieces the grammar forbids",
        "records built",
        "records refused",
        "equal pairs of values",
        "unequal pairs of values",
        "equal pairs of records",
        "unequal pairs of records",
        "records that lost fields",
        "records serialised",
        "text records serialised",
    ] {
        ctx.require(k, 50);
    }
}
