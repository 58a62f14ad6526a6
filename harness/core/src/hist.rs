//! Symbolic table histories: commits with symbolic timestamps, their data files and their timeline files, laid out in
//! the order a Hudi writer produces them, plus the reference reading of such a history.
use crate::fix::*;
use crate::store::*;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::table::Table;
use symrt as s;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Completed,
    Inflight,
    Requested,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Commit,
    Delta,
    /// Replaces the file groups with the given indexes.
    Replace,
}
#[derive(Clone, Debug)]
pub struct Write {
    pub part: String,
    pub fg: usize,
}
#[derive(Clone, Debug)]
pub struct Commit {
    pub ts: String,
    pub st: St,
    pub kind: Kind,
    pub writes: Vec<Write>,
    pub replaces: Vec<Write>,
}
/// A 17-digit timestamp whose last `k` digits (milliseconds) are symbolic.
pub fn sym_ts(k: usize, name: &str) -> String {
    let mut t = b"20240101000000500".to_vec();
    s::fill_in(&mut t[17 - k..], b'0', b'9', name);
    String::from_utf8(t).unwrap()
}
pub fn fid(i: usize) -> String {
    format!("fg{}-0", i)
}
pub fn base_name(fg: usize, ts: &str) -> String {
    format!("{}_0-1-1_{}.parquet", fid(fg), ts)
}
pub fn join(part: &str, name: &str) -> String {
    if part.is_empty() { name.to_string() } else { format!("{part}/{name}") }
}
pub fn metadata(c: &Commit) -> String {
    let mut parts: Vec<String> = vec![];
    for w in &c.writes {
        if !parts.contains(&w.part) {
            parts.push(w.part.clone());
        }
    }
    let stats: Vec<String> = parts
        .iter()
        .map(|p| {
            let ws: Vec<String> = c
                .writes
                .iter()
                .filter(|w| w.part == *p)
                .map(|w| format!(r#"{{"fileId":"{}","path":"{}"}}"#, fid(w.fg), join(p, &base_name(w.fg, &c.ts))))
                .collect();
            format!(r#""{}":[{}]"#, p, ws.join(","))
        })
        .collect();
    let mut rparts: Vec<String> = vec![];
    for w in &c.replaces {
        if !rparts.contains(&w.part) {
            rparts.push(w.part.clone());
        }
    }
    let reps: Vec<String> = rparts
        .iter()
        .map(|p| {
            let ws: Vec<String> = c.replaces.iter().filter(|w| w.part == *p).map(|w| format!(r#""{}""#, fid(w.fg))).collect();
            format!(r#""{}":[{}]"#, p, ws.join(","))
        })
        .collect();
    let rep = if c.kind == Kind::Replace { format!(r#","partitionToReplaceFileIds":{{{}}}"#, reps.join(",")) } else { String::new() };
    format!(r#"{{"partitionToWriteStats":{{{}}}{},"operationType":"UPSERT"}}"#, stats.join(","), rep)
}
pub fn action(k: Kind) -> &'static str {
    match k {
        Kind::Commit => "commit",
        Kind::Delta => "deltacommit",
        Kind::Replace => "replacecommit",
    }
}
/// Timeline files of a commit, in the order they are created.
pub fn put_timeline(st: &mut MemStore, c: &Commit, meta: String) {
    let a = action(c.kind);
    st.put(&format!(".hoodie/{}.{}.requested", c.ts, a), "");
    if c.st != St::Requested {
        match c.kind {
            Kind::Commit => st.put(&format!(".hoodie/{}.inflight", c.ts), ""),
            _ => st.put(&format!(".hoodie/{}.{}.inflight", c.ts, a), ""),
        }
    }
    if c.st == St::Completed {
        st.put(&format!(".hoodie/{}.{}", c.ts, a), meta);
    }
}
pub const COW: &[(&str, &str)] = &[
    ("hoodie.table.type", "COPY_ON_WRITE"),
    ("hoodie.datasource.write.hive_style_partitioning", "false"),
    ("hoodie.datasource.write.partitionpath.urlencode", "false"),
];
/// The base file of a write holds one row whose value is `10*commit+fg`.
pub fn base_file(c: &Commit, ci: usize, w: &Write, parts: &[(&str, &str)]) -> Vec<u8> {
    parquet(&batch(
        &[Rec { ct: c.ts.clone(), seq: "s".into(), key: format!("k{}", w.fg), part: w.part.clone(), val: (10 * ci + w.fg) as i32, ts: 1 }],
        parts,
    ))
}
/// Expected visible base files (partition, fg, commit index) as of `t`.
pub fn visible(h: &[Commit], t: &str) -> Vec<(String, usize, usize)> {
    let mut fgs: Vec<(String, usize)> = vec![];
    for c in h {
        for w in &c.writes {
            if !fgs.contains(&(w.part.clone(), w.fg)) {
                fgs.push((w.part.clone(), w.fg));
            }
        }
    }
    let mut out = vec![];
    for (p, f) in fgs {
        let live = |c: &Commit| c.st == St::Completed && c.ts.as_str() <= t;
        if h.iter().any(|c| live(c) && c.kind == Kind::Replace && c.replaces.iter().any(|w| w.part == p && w.fg == f)) {
            continue;
        }
        let mut best: Option<usize> = None;
        for (i, c) in h.iter().enumerate() {
            if live(c) && c.writes.iter().any(|w| w.part == p && w.fg == f) && best.map_or(true, |b| h[b].ts < c.ts) {
                best = Some(i);
            }
        }
        if let Some(b) = best {
            out.push((p, f, b));
        }
    }
    out
}
/// The slices are exactly the expected base files, each once.
pub fn check_slices(got: &[FileSlice], exp: &[(String, usize, usize)], h: &[Commit], label: &str) {
    s::check(got.len() == exp.len(), &format!("{label}: number of file slices"));
    for (p, f, c) in exp {
        let name = base_name(*f, &h[*c].ts);
        let n = got.iter().filter(|x| x.partition_path == *p && x.base_file.file_name() == name).count();
        s::check(n == 1, &format!("{label}: expected file slice present once"));
    }
}
pub fn values(bs: &[arrow_array::RecordBatch]) -> Vec<i32> {
    let mut v = vec![];
    for b in bs {
        let c = b.column_by_name("val").unwrap().as_any().downcast_ref::<arrow_array::Int32Array>().unwrap();
        v.extend((0..c.len()).map(|i| c.value(i)));
    }
    v.sort_unstable();
    v
}
pub fn open() -> Table {
    block_on(Table::new(BASE)).unwrap()
}
use arrow_array::Array;
