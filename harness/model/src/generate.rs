//! Generators for values, records and streams.  The alphabets are small so
//! that values, tags and identifiers collide often.
use crate::rec::*;
use crate::rng::Rng;

pub const TAGS: [&str; 16] = [
    "003@", "002@", "012A", "012B", "013D", "021A", "028A", "044K", "010@",
    "101@", "145Z", "144A", "201A", "203@", "209A", "237A",
];
pub const OCCS: [&str; 12] = [
    "00", "01", "02", "03", "09", "10", "11", "99", "000", "001", "010",
    "100",
];
pub const CODES: &[u8] = b"0aabbc9AXZz";

pub const VALUES: &[&str] = &[
    "", "", "a", "A", "b", "abc", "ABC", "Abc", "abcd", "xabc", "ab", "bc",
    "aa", "aaa", "x", "Tp1", "Tn", "Ts1", "Tpz", "119232022", "118540238",
    "118607626", "041274377", "040651053", "04065105X", "é", "e\u{301}",
    "É", "Straße", "STRASSE", "strasse", "İ", "i̇", "\u{212a}", "k", "K",
    "ﬁ", "fi", "①", "1", " a ", "a b", " ", "  ", "@Der Titel",
    "Das @Buch", "a@b@c", "@@", "$", "a$b", "$a", "a|b", "|", "a,b", ",",
    "\"q\"", "\"", "it's", "'", "a;b", "2024-02-29", "2023-02-29",
    "2024-01-01", "a\tb", "a\\b", "\\", "<x>&amp;", "&", "<", "]]>", "ſ",
    "ǅ", "日本語", "𝄞", "Ω", "\u{2126}", "ü", "u\u{308}", "\u{a0}x\u{a0}",
    "Lovelace, Ada", "Hartmann, Otto", "eng", "ger", "A10", "Z", "0", "00",
    "01", "10", "2", "9", "true", "null", "#", "!", "(a)", "[b]", "{c}",
    "a\u{0}b", "\u{feff}a", "a/b", "..", ".", "-", "--x", "\r", "a\rb",
];

/// Families of related values, for streams in which the options of
/// comparisons matter.
pub const KIN: &[&[&str]] = &[
    &["abc", "ABC", "Abc", "aBC", "abcd", "Abcd", "abx", "bc"],
    &["Müller", "MÜLLER", "müller", "Muller", "MULLER", "mu\u{308}ller", "Müllers"],
    &["Straße", "STRASSE", "strasse", "Strasse", "straße", "STRAßE"],
    &["a", "A", "b", "B", "ab", "AB", ""],
    &["k", "K", "\u{212a}", "ſ", "s", "S", "ks"],
    &["é", "e\u{301}", "É", "ﬁ", "fi", "ü", "u\u{308}", "\u{212b}", "Å", "A\u{30a}", "①", "1"],
    &["0123456789", "0123456780", "012345678", "0123455789", "9876543210"],
];

/// The family of values with different normal forms.
pub const KIN_FORMS: usize = 6;

/// Lets the generators draw from one of the families.
pub fn use_kin(r: &mut Rng) {
    r.kin = r.range(1, KIN.len());
}

pub const INVALID: &[&[u8]] = &[
    b"\xff", b"a\xffb", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"abc\x80",
    b"\xf0\x9d\x84", b"A\xc3", b"\xc0\xaf",
];

#[derive(Clone, Debug)]
pub struct Opts {
    /// Only valid UTF-8 in values.
    pub utf8: bool,
    /// Values may contain line feeds (never possible in streams).
    pub lf: bool,
    /// No NUL, no control characters except TAB (XML and argument safe).
    pub clean: bool,
    /// Fields in ascending level order of a well-formed record.
    pub leveled: bool,
    pub max_fields: usize,
    /// Chance (in percent) of a PPN field.
    pub ppn: usize,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            utf8: false,
            lf: false,
            clean: false,
            leveled: false,
            max_fields: 6,
            ppn: 85,
        }
    }
}

impl Opts {
    pub fn utf8() -> Self {
        Opts { utf8: true, ..Default::default() }
    }
    pub fn clean() -> Self {
        Opts { utf8: true, clean: true, ..Default::default() }
    }
}

fn ok_clean(s: &str) -> bool {
    s.chars().all(|c| c == '\t' || !c.is_control()) && !s.contains('\u{feff}')
}

/// A value that is easily confused with another one.
pub fn near(r: &mut Rng, s: &str) -> String {
    let n = s.chars().count();
    match r.below(12) {
        0 => format!("0{s}"),
        1 => s.trim_start_matches('0').to_string(),
        2 => format!("{s} "),
        3 => format!(" {s}"),
        4 => s.to_uppercase(),
        5 => s.to_lowercase(),
        6 => s.chars().take(n.saturating_sub(1)).collect(),
        7 => s.chars().skip(1).collect(),
        8 => s.chars().rev().collect(),
        9 => format!("{s}{s}"),
        10 => {
            let mut c: Vec<char> = s.chars().collect();
            if n > 1 {
                c.swap(n - 1, n - 2);
            }
            c.into_iter().collect()
        }
        _ => {
            let k = r.below(n + 1);
            let mut c: Vec<char> = s.chars().collect();
            c.insert(k, *r.pick(&['0', 'X', ' ', '\t', '-', '.', '\u{301}', '\u{200b}']));
            c.into_iter().collect()
        }
    }
}

/// Characters that some command or format treats specially.
const SPECIAL: &[&str] = &[
    "$", "\"", "&", "<", ">", "'", "|", ",", "\t", "\r", "\\", "@", "{}", "{", "}", "/", ".", " ", "\u{301}", "u\u{308}",
    "ü", "é", "(", ")", "[", "]", "*", "?", "!", ";", "=", "#", "%", "\u{feff}", "ﬁ", "\u{0}", "\u{85}", "\u{2028}",
];

/// A special character many times, alone or between others.
fn many(r: &mut Rng) -> String {
    let c = *r.pick(SPECIAL);
    let n = match r.below(3) {
        0 => r.range(2, 8),
        1 => r.range(8, 40),
        _ => edge(r, 4, 7),
    };
    match r.below(4) {
        0 => c.repeat(n),
        1 => format!("a{c}").repeat(n),
        2 => format!("{c}b").repeat(n),
        _ => (0..n).map(|_| if r.bool() { c } else { r.pick(SPECIAL) }).collect(),
    }
}

/// A text value (valid UTF-8, no separators, no line feed unless asked).
pub fn text(r: &mut Rng, o: &Opts) -> String {
    if r.kin > 0 && r.chance(9, 10) {
        return r.pick(KIN[r.kin - 1]).to_string();
    }
    let s = match r.below(14) {
        13 if r.chance(1, 4) => many(r),
        12 | 13 => {
            let v = r.pick(VALUES);
            near(r, v)
        }
        0..=7 => r.pick(VALUES).to_string(),
        8 => format!("{}{}", r.pick(VALUES), r.pick(VALUES)),
        9 => {
            let n = r.below(6);
            (0..n).map(|_| (b'a' + r.below(4) as u8) as char).collect()
        }
        10 => {
            let n = r.below(5);
            (0..n)
                .map(|_| loop {
                    let c = match r.below(4) {
                        0 => r.range(0x20, 0x7e) as u32,
                        1 => r.range(0xa0, 0x24f) as u32,
                        2 => r.range(0x300, 0x2fff) as u32,
                        _ => r.below(0x110000) as u32,
                    };
                    if let Some(c) = char::from_u32(c) {
                        break c;
                    }
                })
                .collect()
        }
        _ => {
            if o.lf {
                format!("{}\n{}", r.pick(VALUES), r.pick(VALUES))
            } else {
                r.pick(VALUES).to_string()
            }
        }
    };
    if o.clean && !ok_clean(&s) {
        return s
            .chars()
            .filter(|c| (*c == '\t' || !c.is_control()) && *c != '\u{feff}')
            .collect();
    }
    s.replace(['\u{1e}', '\u{1f}'], "")
}

/// A length near a power of two.
pub fn edge(r: &mut Rng, from: u32, to: u32) -> usize {
    let n = 1usize << r.range(from as usize, to as usize);
    (n + r.below(5)).saturating_sub(2)
}

/// A long value; what makes it special comes late.
pub fn long(r: &mut Rng, o: &Opts, len: usize) -> Vec<u8> {
    let mut v = match r.below(4) {
        0 => vec![b'x'; len],
        1 => "é".repeat(len / 2).into_bytes(),
        2 => "ab ".repeat(len / 3).into_bytes(),
        _ => "0123456789".repeat(len / 10).into_bytes(),
    };
    match r.below(4) {
        0 => (),
        1 if !o.utf8 => v.extend_from_slice(r.pick(INVALID)),
        2 => v.extend_from_slice("éß".as_bytes()),
        _ => v.extend_from_slice(text(r, o).as_bytes()),
    }
    v
}

pub fn value(r: &mut Rng, o: &Opts) -> Vec<u8> {
    if r.chance(1, 250) {
        let len = edge(r, 5, 9);
        return long(r, o, len);
    }
    if !o.utf8 && r.chance(1, 14) {
        return match r.below(3) {
            0 => {
                let n = r.below(6);
                (0..n)
                    .map(|_| r.below(256) as u8)
                    .filter(|b| !matches!(b, 0x1e | 0x1f | b'\n'))
                    .collect()
            }
            1 => {
                let mut v = text(r, o).into_bytes();
                v.extend_from_slice(r.pick(INVALID));
                v
            }
            _ => r.pick(INVALID).to_vec(),
        };
    }
    text(r, o).into_bytes()
}

pub fn tag(r: &mut Rng) -> [u8; 4] {
    if r.kin > 0 && r.chance(4, 5) {
        return **r.pick(&[b"012A", b"012B", b"012A"]);
    }
    if r.chance(1, 12) {
        return [
            b'0' + r.below(3) as u8,
            b'0' + r.below(10) as u8,
            b'0' + r.below(10) as u8,
            if r.chance(1, 5) { b'@' } else { b'A' + r.below(26) as u8 },
        ];
    }
    r.pick(&TAGS).as_bytes().try_into().unwrap()
}

pub fn occ(r: &mut Rng) -> Option<Vec<u8>> {
    if r.kin > 0 && r.chance(3, 4) {
        return None;
    }
    match r.below(10) {
        0..=5 => None,
        6..=8 => Some(r.pick(&OCCS).as_bytes().to_vec()),
        _ => {
            if r.bool() {
                Some(format!("{:02}", r.below(100)).into_bytes())
            } else {
                Some(format!("{:03}", r.below(1000)).into_bytes())
            }
        }
    }
}

pub fn code(r: &mut Rng) -> u8 {
    if r.kin > 0 && r.chance(4, 5) {
        return *r.pick(b"aab");
    }
    if r.chance(1, 12) {
        *r.pick(b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
    } else {
        *r.pick(CODES)
    }
}

pub fn subs(r: &mut Rng, o: &Opts) -> Vec<Sub> {
    let n = match r.below(10) {
        0 => 0,
        1..=7 => r.range(1, 3),
        _ => r.range(1, 6),
    };
    let n = if r.chance(1, 400) { edge(r, 6, 8) } else { n };
    let same = if r.chance(1, 4) { Some(code(r)) } else { None };
    (0..n)
        .map(|_| Sub { code: same.unwrap_or_else(|| code(r)), value: value(r, o) })
        .collect()
}

pub fn field(r: &mut Rng, o: &Opts) -> Fld {
    Fld { tag: tag(r), occ: occ(r), subs: subs(r, o) }
}

pub fn ppn_value(r: &mut Rng) -> Vec<u8> {
    let v = *r.pick(&[
        "119232022", "118540238", "118607626", "041274377", "040651053",
        "04065105X", "1", "2", "00", "",
    ]);
    if r.chance(1, 8) {
        return near(r, v).into_bytes();
    }
    v.as_bytes().to_vec()
}

pub fn ppn_field(r: &mut Rng) -> Fld {
    let mut subs = vec![Sub { code: b'0', value: ppn_value(r) }];
    if r.chance(1, 15) {
        subs.push(Sub { code: b'0', value: ppn_value(r) });
    }
    if r.chance(1, 20) {
        subs.insert(0, Sub { code: b'a', value: ppn_value(r) });
    }
    Fld {
        tag: *b"003@",
        occ: match r.below(20) {
            0 => Some(b"00".to_vec()),
            1 => Some(b"01".to_vec()),
            _ => None,
        },
        subs,
    }
}

pub fn record(r: &mut Rng, o: &Opts) -> Rec {
    let n = match r.below(20) {
        0 => r.range(1, o.max_fields * 5),
        1..=3 => r.range(1, 2),
        _ => r.range(1, o.max_fields.max(1)),
    };
    let n = if r.chance(1, 400) { edge(r, 6, 8) } else { n };
    let mut fields: Vec<Fld> = (0..n).map(|_| field(r, o)).collect();
    // repeat a field (same or similar) now and then
    if r.chance(1, 3) {
        let f = r.pick(&fields).clone();
        let mut g = f.clone();
        match r.below(4) {
            0 => {}
            1 => g.subs = subs(r, o),
            _ => similar(r, &mut g),
        }
        let at = r.below(fields.len() + 1);
        fields.insert(at, g);
    }
    if r.below(100) < o.ppn {
        let at = if r.chance(4, 5) { 0 } else { r.below(fields.len() + 1) };
        fields.insert(at, ppn_field(r));
    }
    if o.leveled {
        fields = leveled(r, fields);
    }
    Rec { fields }
}

/// Changes a field so that it is easily taken for the old one.
pub fn similar(r: &mut Rng, f: &mut Fld) {
    if f.subs.is_empty() {
        return;
    }
    let i = r.below(f.subs.len());
    let j = r.below(f.subs.len());
    match r.below(5) {
        // the same text, distributed differently
        0 | 1 => {
            let Ok(text) = String::from_utf8(f.subs[i].value.clone()) else { return };
            let k = (0..=text.len()).filter(|k| text.is_char_boundary(*k)).collect::<Vec<_>>();
            let (a, b) = text.split_at(*r.pick(&k));
            if i + 1 < f.subs.len() {
                f.subs[i + 1].value.splice(0..0, b.bytes());
                f.subs[i].value = a.as_bytes().to_vec();
            } else if i > 0 {
                f.subs[i - 1].value.extend(a.bytes());
                f.subs[i].value = b.as_bytes().to_vec();
            }
        }
        2 => {
            f.subs.swap(i, j);
        }
        3 => {
            let (a, b) = (f.subs[i].code, f.subs[j].code);
            f.subs[i].code = b;
            f.subs[j].code = a;
        }
        _ => {
            if let Ok(text) = String::from_utf8(f.subs[i].value.clone()) {
                f.subs[i].value = near(r, &text).into_bytes();
            }
        }
    }
}

/// Reorders and completes fields to title fields, then local units with
/// copies.
fn leveled(r: &mut Rng, fields: Vec<Fld>) -> Vec<Fld> {
    let mut main: Vec<Fld> = vec![];
    let mut local = vec![];
    let mut copy = vec![];
    for f in fields {
        match f.level() {
            0 => main.push(f),
            1 => local.push(f),
            _ => copy.push(f),
        }
    }
    let o = Opts::default();
    let mut out = main;
    let units = r.below(4);
    for _ in 0..units {
        for _ in 0..r.range(0, 2) {
            let mut f = if !local.is_empty() && r.bool() {
                local.remove(0)
            } else {
                field(r, &o)
            };
            f.tag = *b"101@";
            if r.bool() {
                f.tag = *b"145Z";
            }
            out.push(f);
        }
        let copies = r.below(4);
        for _ in 0..copies {
            let occ = match r.below(6) {
                0 => None,
                1 => Some(b"00".to_vec()),
                2 | 3 => Some(b"01".to_vec()),
                4 => Some(b"02".to_vec()),
                _ => Some(r.pick(&OCCS).as_bytes().to_vec()),
            };
            for _ in 0..r.range(1, 3) {
                let mut f = if !copy.is_empty() && r.bool() {
                    copy.remove(0)
                } else {
                    field(r, &o)
                };
                f.tag = *b"203@";
                if r.bool() {
                    f.tag = *b"209A";
                }
                f.occ = occ.clone();
                out.push(f);
            }
        }
    }
    if out.is_empty() {
        out.push(ppn_field(r));
    }
    out
}

/// A line that is not a record.
pub fn invalid_line(r: &mut Rng) -> Vec<u8> {
    let o = Opts::default();
    loop {
        let mut l = record(r, &o).encode();
        l.pop();
        match r.below(13) {
            0 => l.clear(),
            1 => l = b"garbage".to_vec(),
            2 => {
                l.pop();
            }
            3 => {
                let i = r.below(l.len());
                l.remove(i);
            }
            4 => {
                let i = r.below(l.len());
                l[i] = r.below(256) as u8;
            }
            5 => l[0] = b'3' + r.below(7) as u8,
            6 => l.push(b'\r'),
            7 => {
                let i = r.below(l.len() + 1);
                l.insert(i, *r.pick(b" /$\x1e\x1f\x00a0@\xff"));
            }
            8 => {
                let i = r.below(l.len());
                l.truncate(i);
            }
            9 => {
                // what readers of text files like to skip or to repair
                let junk = *r.pick::<&[u8]>(&[
                    b"\xef\xbb\xbf", b" ", b"\t", b"  ", b"#", b"# comment", b"//", b"\0", b"\r",
                    b"\x1a", b"\x1d", b"\x1e", b"\x0c", b"\xff\xfe", b"\xc2\xa0", b"\x0b",
                    b"[", b"<record>", b"---", b"ppn",
                ]);
                match r.below(4) {
                    0 => l = junk.to_vec(),
                    1 => l.extend_from_slice(junk),
                    2 => {
                        let mut v = junk.to_vec();
                        v.append(&mut l);
                        l = v;
                    }
                    _ => {
                        // between two fields
                        let cuts: Vec<usize> =
                            (0..l.len()).filter(|i| l[*i] == 0x1e).collect();
                        let at = *r.pick(&cuts) + 1;
                        let tail = l.split_off(at);
                        l.extend_from_slice(junk);
                        l.extend(tail);
                    }
                }
            }
            10 => {
                // two records on a line, with something between them
                let sep = *r.pick::<&[u8]>(&[b"\r", b"\x1d", b" ", b"\x1e", b"\0", b"\x0b"]);
                let mut tail = record(r, &o).encode();
                tail.pop();
                l.extend_from_slice(sep);
                l.extend(tail);
            }
            11 => {
                // a separator doubled
                let seps: Vec<usize> =
                    (0..l.len()).filter(|i| matches!(l[*i], 0x1e | 0x1f | b' ' | b'/')).collect();
                let i = *r.pick(&seps);
                l.insert(i, l[i]);
            }
            _ => {
                let n = r.range(1, 12);
                l = (0..n).map(|_| r.below(256) as u8).collect();
            }
        }
        l.retain(|b| *b != b'\n');
        l.push(b'\n');
        if Rec::decode(&l).is_none() {
            return l;
        }
    }
}
