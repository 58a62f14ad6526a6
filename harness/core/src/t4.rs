//! Replaced file groups and incremental windows.
use crate::fix::*;
use crate::hist::*;
use crate::store::*;
use crate::t3::*;
use symrt as s;

pub fn pw(p: &str, fg: usize) -> Write {
    Write { part: p.into(), fg }
}
pub fn cm(ts: String, kind: Kind, writes: Vec<Write>, replaces: Vec<Write>) -> Commit {
    Commit { ts, st: St::Completed, kind, writes, replaces }
}
pub const PART: &[(&str, &str)] = &[
    ("hoodie.table.type", "COPY_ON_WRITE"),
    ("hoodie.table.partition.fields", "p"),
    ("hoodie.datasource.write.hive_style_partitioning", "false"),
    ("hoodie.datasource.write.partitionpath.urlencode", "false"),
];
pub fn onepart(p: &str) -> Vec<(&'static str, String)> {
    vec![("p", p.to_string())]
}
fn increasing(h: &[Commit]) {
    for i in 1..h.len() {
        s::assume(h[i - 1].ts < h[i].ts);
    }
}
fn fgs(mask: usize, all: &[Write]) -> Vec<Write> {
    (0..all.len()).filter(|i| mask >> i & 1 == 1).map(|i| all[i].clone()).collect()
}
fn exp_rows(h: &[Commit], vis: &[(String, usize, usize)]) -> Vec<i32> {
    let _ = h;
    let mut e: Vec<i32> = vis.iter().map(|(_, f, c)| (10 * c + f) as i32).collect();
    e.sort_unstable();
    e
}
/// The same file id in two partitions; a replacement of any subset of the file groups, possibly a second replacement,
/// possibly a write to the replaced file group before it.
fn replaced(second: bool) {
    let all = vec![pw("a", 0), pw("b", 0), pw("a", 1)];
    let m1 = 1 + s::choose(7, "replaced");
    let mut h = vec![
        cm("20240101000000100".into(), Kind::Commit, all.clone(), vec![]),
        cm(sym_ts(1, "u"), Kind::Commit, vec![pw("a", 0)], vec![]),
        cm(sym_ts(1, "r"), Kind::Replace, if s::choose(2, "rewrites") == 1 { vec![pw("a", 2)] } else { vec![] }, fgs(m1, &all)),
    ];
    increasing(&h);
    if second {
        // replaces what the first replacement wrote
        let r2 = cm(sym_ts(1, "r2"), Kind::Replace, vec![pw("a", 3), pw("b", 3)], vec![pw("a", 2)]);
        s::assume(h[2].ts < r2.ts);
        h.push(r2);
    }
    let at = sym_ts(1, "at");
    lay(&h, None, s::choose(2, "order"), PART, &onepart).install();
    let t = open();
    let vis = visible(&h, &at);
    let sl = block_on(t.get_file_slices_as_of(&at, &[])).unwrap();
    check_slices(&sl, &vis, &h, "as-of");
    s::check(values(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap()) == exp_rows(&h, &vis), "as-of rows");
    let last = h[h.len() - 1].ts.clone();
    let vis = visible(&h, &last);
    check_slices(&block_on(t.get_file_slices(&[])).unwrap(), &vis, &h, "snapshot");
    let v = values(&block_on(t.read_snapshot(&[])).unwrap());
    s::check(v == exp_rows(&h, &vis), "snapshot rows");
    s::observe(format!("{v:?}").as_bytes(), "rows");
    s::cover(if vis.len() < 3 { "fewer" } else { "end" });
}
#[no_mangle]
pub extern "C" fn hv_replaced() {
    replaced(false)
}
#[no_mangle]
pub extern "C" fn hv_replaced2() {
    replaced(true)
}
/// Two replacements complete out of order or one is pending: only completed ones at or before the read count.
#[no_mangle]
pub extern "C" fn hv_replaced_pending() {
    let all = vec![pw("a", 0), pw("b", 0)];
    let mut h = vec![
        cm("20240101000000100".into(), Kind::Commit, all.clone(), vec![]),
        cm(sym_ts(1, "r"), Kind::Replace, vec![pw("a", 2)], vec![pw("a", 0)]),
        cm(sym_ts(1, "q"), Kind::Replace, vec![pw("b", 2)], vec![pw("b", 0)]),
    ];
    s::assume(h[1].ts != h[2].ts);
    let k = s::choose(5, "crash");
    h[1].st = if k == 4 { St::Completed } else { St::Inflight };
    let at = sym_ts(1, "at");
    lay(&h, Some((1, k)), s::choose(2, "order"), PART, &onepart).install();
    let t = open();
    check_slices(&block_on(t.get_file_slices_as_of(&at, &[])).unwrap(), &visible(&h, &at), &h, "as-of");
    let last = h.iter().filter(|c| c.st == St::Completed).map(|c| c.ts.clone()).max().unwrap();
    let vis = visible(&h, &last);
    check_slices(&block_on(t.get_file_slices(&[])).unwrap(), &vis, &h, "snapshot");
    s::observe_u64(vis.len() as u64, "n");
    s::cover(if k == 4 { "completed" } else { "pending" });
}

// ---- incremental ----
/// Rows of the `n`th write of a file group: one row updated by every write, one only by the first, one inserted by each.
fn inc_rows(h: &[Commit], ci: usize, w: &Write) -> Vec<(usize, i32)> {
    let mut chain: Vec<usize> = (0..ci).filter(|j| h[*j].writes.iter().any(|x| x.part == w.part && x.fg == w.fg)).collect();
    chain.push(ci);
    let v = |c: usize, k: usize| (100 * c + 10 * w.fg + k) as i32;
    let mut r = vec![(ci, v(ci, 0)), (chain[0], v(chain[0], 1))];
    r.extend(chain.iter().map(|c| (*c, v(*c, 2))));
    r
}
fn put_inc(h: &[Commit], parts: bool, order: usize) {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(if parts { PART } else { COW }));
    for (i, c) in h.iter().enumerate() {
        for w in &c.writes {
            let recs: Vec<Rec> = inc_rows(h, i, w)
                .iter()
                .map(|(c, v)| Rec { ct: h[*c].ts.clone(), seq: "s".into(), key: format!("k{v}"), part: w.part.clone(), val: *v, ts: 1 })
                .collect();
            let p: &[(&str, &str)] = if parts { &[("p", w.part.as_str())] } else { &[] };
            st.put(&join(&w.part, &base_name(w.fg, &c.ts)), parquet(&batch(&recs, p)));
        }
        put_timeline(&mut st, c, metadata(c));
    }
    if order == 1 {
        st.files.reverse();
    }
    st.install();
}
/// Slices and rows of the window (start, end].
fn inc_expect(h: &[Commit], start: &str, end: &str) -> (Vec<(String, usize, usize)>, Vec<i32>) {
    let inside = |c: &Commit| c.st == St::Completed && c.ts.as_str() > start && c.ts.as_str() <= end;
    let mut sl = vec![];
    let mut rows = vec![];
    let mut seen: Vec<Write> = vec![];
    for c in h {
        for w in &c.writes {
            if seen.iter().any(|x| x.part == w.part && x.fg == w.fg) {
                continue;
            }
            seen.push(w.clone());
            let same = |x: &Write| x.part == w.part && x.fg == w.fg;
            if h.iter().any(|c| inside(c) && c.replaces.iter().any(same)) {
                continue;
            }
            let mut last = None;
            for (i, c) in h.iter().enumerate() {
                if inside(c) && c.writes.iter().any(same) {
                    last = Some(i);
                }
            }
            if let Some(i) = last {
                sl.push((w.part.clone(), w.fg, i));
                for (ci, v) in inc_rows(h, i, w) {
                    if inside(&h[ci]) {
                        rows.push(v);
                    }
                }
            }
        }
    }
    rows.sort_unstable();
    (sl, rows)
}
fn inc(h: Vec<Commit>, parts: bool, digits: usize) {
    put_inc(&h, parts, s::choose(2, "order"));
    let t = open();
    let last = h.iter().filter(|c| c.st == St::Completed).map(|c| c.ts.clone()).max().unwrap();
    let start = sym_ts(digits, "start");
    let end = sym_ts(digits, "end");
    let (mut sopt, mut eopt) = (Some(start.as_str()), Some(end.as_str()));
    let mut e = end.as_str();
    let mut b = start.as_str();
    match s::choose(3, "bounds") {
        0 => {}
        1 => {
            eopt = None;
            e = &last;
        }
        _ => {
            sopt = None;
            b = "19700101000000000";
        }
    }
    let (sl, rows) = inc_expect(&h, b, e);
    let got = block_on(t.get_file_slices_between(sopt, eopt)).unwrap();
    check_slices(&got, &sl, &h, "incremental");
    let v = values(&block_on(t.read_incremental_records(b, eopt)).unwrap());
    s::check(v == rows, "incremental rows");
    s::observe(format!("{v:?}").as_bytes(), "rows");
    s::cover(if v.is_empty() { "none" } else { "some" });
}
/// Every write pattern of 2 later commits over 2 file groups.
#[no_mangle]
pub extern "C" fn hv_inc() {
    let all = vec![w(0), w(1)];
    let h = vec![
        cm("20240101000000100".into(), Kind::Commit, all.clone(), vec![]),
        cm(sym_ts(1, "c1"), Kind::Commit, fgs(1 + s::choose(3, "w1"), &all), vec![]),
        cm(sym_ts(1, "c2"), Kind::Commit, fgs(1 + s::choose(3, "w2"), &[w(0), w(2)]), vec![]),
    ];
    increasing(&h);
    inc(h, false, 1)
}
#[no_mangle]
pub extern "C" fn hv_inc_replace() {
    let h = vec![
        cm("20240101000000100".into(), Kind::Commit, vec![pw("a", 0), pw("b", 0)], vec![]),
        cm(sym_ts(1, "c1"), Kind::Commit, vec![pw("a", 0), pw("b", 0), pw("a", 1)], vec![]),
        cm(sym_ts(1, "r"), Kind::Replace, if s::choose(2, "rewrites") == 1 { vec![pw("a", 2)] } else { vec![] }, fgs(1 + s::choose(7, "rep"), &[pw("a", 0), pw("b", 0), pw("a", 1)])),
    ];
    increasing(&h);
    inc(h, true, 1)
}
#[no_mangle]
pub extern "C" fn hv_inc_pending() {
    let mut h = vec![
        cm("20240101000000100".into(), Kind::Commit, vec![w(0)], vec![]),
        cm(sym_ts(1, "u"), if s::choose(2, "kind") == 0 { Kind::Commit } else { Kind::Replace }, vec![w(1), w(2)], vec![]),
        cm(sym_ts(1, "c"), Kind::Commit, vec![w(0), w(3)], vec![]),
    ];
    if h[1].kind == Kind::Replace {
        h[1].replaces = vec![w(0)];
        h[2].writes = vec![w(3)];
    }
    h[1].st = [St::Requested, St::Inflight][s::choose(2, "state")];
    s::assume(h[1].ts != h[2].ts);
    inc(h, false, 1)
}
