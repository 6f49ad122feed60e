//! Observation: what pica-rs shows of a record, as a record of the model.
use model::mon::Verdict;
use model::rec::*;
use pica_record::prelude::*;
use pica_record::primitives::*;

pub fn tag_bytes(t: &TagRef) -> Vec<u8> {
    let mut v = vec![];
    t.write_to(&mut v).unwrap();
    v
}

pub fn fld(f: &FieldRef) -> Result<Fld, String> {
    let tag = tag_bytes(f.tag());
    Ok(Fld {
        tag: tag.clone().try_into().map_err(|_| format!("tag {tag:?}"))?,
        occ: f.occurrence().map(|o| o.as_bytes().to_vec()),
        subs: f
            .subfields()
            .iter()
            .map(|s| Sub { code: s.code().as_byte(), value: s.value().as_bytes().to_vec() })
            .collect(),
    })
}

pub fn rec(r: &RecordRef) -> Result<Rec, String> {
    Ok(Rec { fields: r.fields().iter().map(fld).collect::<Result<_, _>>()? })
}

pub fn expect_rec(what: &str, got: &RecordRef, want: &Rec) -> Verdict {
    let got = rec(got)?;
    if &got == want {
        return Ok(());
    }
    Err(format!(
        "{what}: the record shows {} but should show {}",
        show(&got.encode()),
        show(&want.encode())
    ))
}

pub fn expect_bytes(what: &str, got: &[u8], want: &[u8]) -> Verdict {
    if got == want {
        return Ok(());
    }
    Err(format!("{what}: got '{}' but expected '{}'", show(got), show(want)))
}

pub fn opts(o: &model::expr::MOpts) -> MatcherOptions {
    MatcherOptions::new().case_ignore(o.ignore_case).strsim_threshold(o.threshold)
}

pub fn sha256(data: &[u8]) -> Vec<u8> {
    use sha2::{Digest, Sha256};
    let mut h = Sha256::new();
    h.update(data);
    h.finalize().to_vec()
}
