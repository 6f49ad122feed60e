//! Records and their byte encoding.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sub {
    pub code: u8,
    pub value: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fld {
    pub tag: [u8; 4],
    pub occ: Option<Vec<u8>>,
    pub subs: Vec<Sub>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Rec {
    pub fields: Vec<Fld>,
}

impl Fld {
    pub fn level(&self) -> u8 {
        self.tag[0] - b'0'
    }

    pub fn encode(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.tag);
        if let Some(occ) = &self.occ {
            out.push(b'/');
            out.extend_from_slice(occ);
        }
        out.push(b' ');
        for s in &self.subs {
            out.push(0x1f);
            out.push(s.code);
            out.extend_from_slice(&s.value);
        }
        out.push(0x1e);
    }

    pub fn tag_str(&self) -> &str {
        std::str::from_utf8(&self.tag).unwrap()
    }
}

impl Rec {
    /// The encoded record, including the line feed.
    pub fn encode(&self) -> Vec<u8> {
        let mut out = vec![];
        for f in &self.fields {
            f.encode(&mut out);
        }
        out.push(b'\n');
        out
    }

    pub fn is_utf8(&self) -> bool {
        self.fields
            .iter()
            .flat_map(|f| &f.subs)
            .all(|s| std::str::from_utf8(&s.value).is_ok())
    }

    pub fn ppn(&self) -> Option<&[u8]> {
        self.fields
            .iter()
            .filter(|f| {
                &f.tag == b"003@"
                    && (f.occ.is_none() || f.occ.as_deref() == Some(b"00"))
            })
            .flat_map(|f| &f.subs)
            .find(|s| s.code == b'0')
            .map(|s| &s.value[..])
    }

    /// Decodes exactly one record including its final line feed.
    pub fn decode(data: &[u8]) -> Option<Rec> {
        let mut fields = vec![];
        let mut i = 0;
        let at = |i: usize| data.get(i).copied();
        loop {
            if at(i) == Some(b'\n')
                && i + 1 == data.len()
                && !fields.is_empty()
            {
                return Some(Rec { fields });
            }
            let tag: [u8; 4] = data.get(i..i + 4)?.try_into().ok()?;
            if !(b'0'..=b'2').contains(&tag[0])
                || !tag[1].is_ascii_digit()
                || !tag[2].is_ascii_digit()
                || !(tag[3] == b'@' || tag[3].is_ascii_uppercase())
            {
                return None;
            }
            i += 4;
            let mut occ = None;
            if at(i) == Some(b'/') {
                let mut digits = vec![];
                i += 1;
                while let Some(c) = at(i)
                    && c.is_ascii_digit()
                {
                    digits.push(c);
                    i += 1;
                }
                if digits.len() != 2 && digits.len() != 3 {
                    return None;
                }
                occ = Some(digits);
            }
            if at(i) != Some(b' ') {
                return None;
            }
            i += 1;
            let mut subs = vec![];
            while at(i) == Some(0x1f) {
                let code = at(i + 1)?;
                if !code.is_ascii_alphanumeric() {
                    return None;
                }
                i += 2;
                let start = i;
                while let Some(c) = at(i)
                    && c != 0x1e
                    && c != 0x1f
                {
                    i += 1;
                }
                subs.push(Sub {
                    code,
                    value: data[start..i].to_vec(),
                });
            }
            if at(i) != Some(0x1e) {
                return None;
            }
            i += 1;
            fields.push(Fld { tag, occ, subs });
        }
    }

    /// Splits a buffer at line feeds; the last item may lack its line feed.
    pub fn lines(data: &[u8]) -> Vec<&[u8]> {
        data.split_inclusive(|b| *b == b'\n').collect()
    }
}

/// Printable form of bytes for reports.
pub fn show(data: &[u8]) -> String {
    let mut s = String::new();
    for chunk in data.utf8_chunks() {
        for c in chunk.valid().chars() {
            match c {
                '\u{1f}' => s.push('$'),
                '\u{1e}' => s.push('¶'),
                '\n' => s.push('⏎'),
                c if c.is_control() => {
                    s.push_str(&c.escape_default().to_string())
                }
                c => s.push(c),
            }
        }
        for b in chunk.invalid() {
            s.push_str(&format!("\\x{b:02x}"));
        }
    }
    s
}
