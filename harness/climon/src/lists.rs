//! Allow and deny lists in all formats.
use model::rng::Rng;
use polars::prelude::*;

use crate::cli::*;

fn csv_cell(r: &mut Rng, v: &str, sep: u8) -> String {
    if v.contains(['"', '\n', '\r', sep as char]) || v.is_empty() || r.chance(1, 5) {
        format!("\"{}\"", v.replace('"', "\"\""))
    } else {
        v.to_string()
    }
}

/// Writes a list file in a random format; returns its path.
pub fn write_list(r: &mut Rng, w: &Work, name: &str, values: &[String], column: Option<&str>) -> String {
    let formats: &[&str] = match column {
        // a list without header has the column `ppn`
        Some(c) if c != "ppn" => &["csv", "csv.gz", "tsv", "tsv.gz", "ipc", "other"],
        _ => &["csv", "csv.gz", "tsv", "tsv.gz", "txt", "txt.gz", "ipc", "other"],
    };
    let mut f = *r.pick(formats);
    let odd = values.iter().any(|v| v.starts_with('\u{feff}'));
    if f.starts_with("txt") && (odd || values.is_empty()) {
        f = "csv";
    }
    write_list_as(r, w, name, values, column, f)
}

pub fn write_list_as(
    r: &mut Rng,
    w: &Work,
    name: &str,
    values: &[String],
    column: Option<&str>,
    f: &str,
) -> String {
    let column = column.unwrap_or_else(|| r.pick(&["ppn", "idn"]));
    let file = match f {
        "other" => format!("{name}.lst"),
        f => format!("{name}.{f}"),
    };
    // other columns before and after
    let (before, after) = (r.below(2), r.below(2));
    if f == "ipc" {
        let mut cols: Vec<Column> = vec![];
        let filler: Vec<String> = values.iter().map(|_| "zz".to_string()).collect();
        if before > 0 {
            cols.push(Column::new("first".into(), filler.clone()));
        }
        cols.push(Column::new(column.into(), values.to_vec()));
        if after > 0 {
            cols.push(Column::new("last".into(), filler));
        }
        let mut df = DataFrame::new(values.len(), cols).expect("data frame");
        let mut buf = vec![];
        IpcWriter::new(&mut buf).finish(&mut df).expect("ipc");
        return w.write(&file, &buf);
    }
    let sep = if f.starts_with("tsv") { b'\t' } else { b',' };
    let mut text = String::new();
    let row = |cells: Vec<String>| cells.join(std::str::from_utf8(&[sep]).unwrap());
    let eol = if r.chance(1, 4) { "\r\n" } else { "\n" };
    if f.starts_with("txt") {
        for v in values {
            text += &csv_cell(r, v, b',');
            text += eol;
        }
    } else {
        let line = |r: &mut Rng, v: &str, k: &str| {
            let mut cells = vec![];
            if before > 0 {
                cells.push(if k.is_empty() { "first".into() } else { k.to_string() });
            }
            cells.push(csv_cell(r, v, sep));
            if after > 0 {
                cells.push(if k.is_empty() { "last".into() } else { k.to_string() });
            }
            row(cells)
        };
        text += &line(r, column, "");
        text += eol;
        for v in values {
            text += &line(r, v, "zz");
            text += eol;
        }
    }
    if r.chance(1, 4) && !values.is_empty() {
        let n = text.len() - eol.len();
        text.truncate(n); // no line end at the end of the file
    }
    let data = if f.ends_with("gz") { gzip(text.as_bytes()) } else { text.into_bytes() };
    w.write(&file, &data)
}

/// Writes a list with these columns (CSV, TSV or Arrow by the name).
pub fn write_columns(w: &Work, name: &str, cols: &[(&str, Vec<String>)], numbers: bool) -> String {
    if name.ends_with("ipc") {
        let columns: Vec<Column> = cols
            .iter()
            .map(|(n, v)| {
                if numbers {
                    let v: Vec<Option<u32>> = v.iter().map(|v| v.parse().ok()).collect();
                    Column::new((*n).into(), v)
                } else {
                    let v: Vec<Option<String>> = v.iter().map(|v| (!v.is_empty()).then(|| v.clone())).collect();
                    Column::new((*n).into(), v)
                }
            })
            .collect();
        let mut df = DataFrame::new(cols[0].1.len(), columns).expect("data frame");
        let mut buf = vec![];
        IpcWriter::new(&mut buf).finish(&mut df).expect("ipc");
        return w.write(name, &buf);
    }
    let sep = if name.contains("tsv") { "\t" } else { "," };
    let mut text = cols.iter().map(|c| c.0).collect::<Vec<_>>().join(sep) + "\n";
    for i in 0..cols[0].1.len() {
        text += &(cols.iter().map(|c| &c.1[i][..]).collect::<Vec<_>>().join(sep) + "\n");
    }
    let data = text.into_bytes();
    w.write(name, &if name.ends_with("gz") { gzip(&data) } else { data })
}
