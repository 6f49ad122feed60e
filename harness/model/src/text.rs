//! Text functions used by the reference evaluators.
use unicode_normalization::UnicodeNormalization;

/// Lowercases the valid UTF-8 parts of a byte string, char by char.
pub fn lowercase(data: &[u8]) -> Vec<u8> {
    map_chars(data, |c, out| {
        for l in c.to_lowercase() {
            out.push(l)
        }
    })
}

pub fn uppercase(data: &[u8]) -> Vec<u8> {
    map_chars(data, |c, out| {
        for l in c.to_uppercase() {
            out.push(l)
        }
    })
}

fn map_chars(data: &[u8], f: impl Fn(char, &mut String)) -> Vec<u8> {
    let mut out = vec![];
    for chunk in data.utf8_chunks() {
        let mut s = String::new();
        for c in chunk.valid().chars() {
            f(c, &mut s);
        }
        out.extend_from_slice(s.as_bytes());
        out.extend_from_slice(chunk.invalid());
    }
    out
}

/// Removes Unicode white space from both ends.
pub fn trim(data: &[u8]) -> Vec<u8> {
    // split into (char or raw bytes) items
    let mut items: Vec<(Option<char>, Vec<u8>)> = vec![];
    for chunk in data.utf8_chunks() {
        for c in chunk.valid().chars() {
            items.push((Some(c), c.to_string().into_bytes()));
        }
        if !chunk.invalid().is_empty() {
            items.push((None, chunk.invalid().to_vec()));
        }
    }
    let ws = |i: &(Option<char>, Vec<u8>)| i.0.is_some_and(char::is_whitespace);
    let start = items.iter().position(|i| !ws(i)).unwrap_or(items.len());
    let end = items.iter().rposition(|i| !ws(i)).map_or(start, |p| p + 1);
    items[start..end].iter().flat_map(|i| i.1.clone()).collect()
}

pub fn contains(haystack: &[u8], needle: &[u8]) -> bool {
    needle.is_empty()
        || (needle.len() <= haystack.len()
            && haystack.windows(needle.len()).any(|w| w == needle))
}

/// 1 - (edit distance / longer length) over chars, 1 for two empty texts.
pub fn similarity(a: &str, b: &str) -> f64 {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let max = a.len().max(b.len());
    if max == 0 {
        return 1.0;
    }
    let mut dist = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            dist[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else {
                let sub = dist[i - 1][j - 1]
                    + usize::from(a[i - 1] != b[j - 1]);
                sub.min(dist[i - 1][j] + 1).min(dist[i][j - 1] + 1)
            };
        }
    }
    1.0 - dist[a.len()][b.len()] as f64 / max as f64
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Nf {
    Nfc,
    Nfd,
    Nfkc,
    Nfkd,
}

pub const NFS: [Nf; 4] = [Nf::Nfc, Nf::Nfd, Nf::Nfkc, Nf::Nfkd];

impl Nf {
    pub fn name(self) -> &'static str {
        match self {
            Nf::Nfc => "nfc",
            Nf::Nfd => "nfd",
            Nf::Nfkc => "nfkc",
            Nf::Nfkd => "nfkd",
        }
    }

    pub fn apply(self, s: &str) -> String {
        match self {
            Nf::Nfc => s.nfc().collect(),
            Nf::Nfd => s.nfd().collect(),
            Nf::Nfkc => s.nfkc().collect(),
            Nf::Nfkd => s.nfkd().collect(),
        }
    }
}

pub fn normalize(nf: Option<Nf>, s: &str) -> String {
    match nf {
        Some(nf) => nf.apply(s),
        None => s.to_string(),
    }
}
