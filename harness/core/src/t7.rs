//! Merge-on-read reads: merging, time travel, pending and rolled back log blocks.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use symrt as s;

const C0: &str = "20240101000000500";
pub fn base0() -> Vec<Rec> {
    vec![rec(C0, 0, "a", 1, 5), rec(C0, 1, "b", 2, 5)]
}
fn small(name: &str) -> i64 {
    s::u8_in(4, 6, name) as i64
}
/// The rows of an upsert: which keys it writes is chosen, precombine values are symbolic.
fn upsert(ct: &str, v: i32, name: &str) -> Vec<Rec> {
    match s::choose(3, name) {
        0 => vec![rec(ct, 0, "a", v, small(&format!("{name}p")))],
        1 => vec![rec(ct, 0, "c", v, small(&format!("{name}p")))],
        _ => vec![rec(ct, 0, "b", v, 5), rec(ct, 1, "a", v + 1, small(&format!("{name}q")))],
    }
}
pub fn live<'a>(srcs: &'a [(String, Vec<Rec>)], keep: impl Fn(&str) -> bool) -> Vec<&'a Rec> {
    srcs.iter().filter(|x| keep(&x.0)).flat_map(|x| x.1.iter()).collect()
}
fn opt_reader(t: &hudi_core::table::Table, opts: &[(&str, &str)], at: &str) -> Vec<(String, i32)> {
    let sl = block_on(t.get_file_slices_as_of(at, &[])).unwrap();
    let r = t.create_file_group_reader_with_options(opts.iter().map(|x| (x.0, x.1))).unwrap();
    let mut v = vec![];
    for f in &sl {
        v.extend(rows(&[block_on(r.read_file_slice(f)).unwrap()]));
    }
    v.sort();
    v
}
/// Two delta commits on one base file, in one log file or two, in either listing order.
fn mor_asof(digits: usize) {
    let d1 = sym_ts(digits, "d1");
    let d2 = sym_ts(digits, "d2");
    s::assume(d1.as_str() > C0 && d1 < d2);
    let r1 = upsert(&d1, 10, "u1");
    let r2 = upsert(&d2, 20, "u2");
    let layout = s::choose(3, "layout");
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    st.put(&base_name(0, C0), parquet(&batch(&base0(), &[])));
    put_commit(&mut st, C0, 3, base_metadata(0, C0));
    let (b1, b2) = (data_block(&d1, &r1), data_block(&d2, &r2));
    if layout == 0 {
        st.put(&log_name(0, C0, 1), [b1, b2].concat());
    } else {
        st.put(&log_name(0, C0, 1), b1);
        st.put(&log_name(0, C0, 2), b2);
    }
    put_delta(&mut st, &d1, 3, delta_metadata(0, C0, &[1]));
    put_delta(&mut st, &d2, 3, delta_metadata(0, C0, &[if layout == 0 { 1 } else { 2 }]));
    if layout == 2 {
        st.files.reverse();
    }
    st.install();
    let t = open();
    let at = sym_ts(digits, "at");
    let srcs = vec![(C0.to_string(), base0()), (d1.clone(), r1), (d2.clone(), r2)];
    let got = rows(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap());
    s::check(got == merge(&live(&srcs, |x| x <= at.as_str())), "as-of rows");
    s::observe(format!("{got:?}").as_bytes(), "as-of");
    let snap = rows(&block_on(t.read_snapshot(&[])).unwrap());
    s::check(snap == merge(&live(&srcs, |_| true)), "snapshot rows");
    let ro = opt_reader(&t, &[("hoodie.read.use.read_optimized.mode", "true")], &d2);
    s::check(ro == merge(&live(&srcs, |x| x == C0)), "read-optimized rows");
    s::cover(if at < d1 { "before" } else if at < d2 { "between" } else { "after" });
}
#[no_mangle]
pub extern "C" fn hv_mor_asof() {
    mor_asof(1)
}
/// A delta commit at any step of its writer next to a completed one; its log block in its own file or appended to the
/// same one.
#[no_mangle]
pub extern "C" fn hv_mor_pending() {
    let d1 = sym_ts(1, "d1");
    let d2 = sym_ts(1, "d2");
    s::assume(d1.as_str() > C0 && d2.as_str() > C0 && d1 != d2);
    let step = s::choose(5, "crash"); // requested, inflight, log block, completed
    let r1 = vec![rec(&d1, 0, "a", 10, 6), rec(&d1, 1, "c", 11, 6)];
    let r2 = vec![rec(&d2, 0, "b", 20, 6), rec(&d2, 1, "a", 21, small("p"))];
    let same_file = s::choose(2, "samefile") == 1;
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    st.put(&base_name(0, C0), parquet(&batch(&base0(), &[])));
    put_commit(&mut st, C0, 3, base_metadata(0, C0));
    let mut log1 = vec![];
    if step >= 3 {
        log1 = data_block(&d1, &r1);
    }
    if same_file {
        log1.extend(data_block(&d2, &r2));
    } else {
        st.put(&log_name(0, C0, 2), data_block(&d2, &r2));
    }
    if !log1.is_empty() {
        st.put(&log_name(0, C0, 1), log1);
    }
    put_delta(&mut st, &d1, if step == 4 { 3 } else { step.min(2) }, delta_metadata(0, C0, &[1]));
    put_delta(&mut st, &d2, 3, delta_metadata(0, C0, &[if same_file { 1 } else { 2 }]));
    st.install();
    let t = open();
    let at = sym_ts(1, "at");
    let mut srcs = vec![(C0.to_string(), base0()), (d2.clone(), r2)];
    if step == 4 {
        srcs.push((d1.clone(), r1));
    }
    let got = rows(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap());
    s::check(got == merge(&live(&srcs, |x| x <= at.as_str())), "as-of rows");
    let last = if step == 4 && d1 > d2 { &d1 } else { &d2 };
    let snap = rows(&block_on(t.read_snapshot(&[])).unwrap());
    s::check(snap == merge(&live(&srcs, |x| x <= last.as_str())), "snapshot rows");
    let inc = rows(&block_on(t.read_incremental_records(C0, Some(&at))).unwrap());
    s::check(inc == merge(&live(&srcs, |x| x > C0 && x <= at.as_str())), "incremental rows");
    s::observe(format!("{got:?}{inc:?}").as_bytes(), "rows");
    s::cover(if step == 4 { "committed" } else { "uncommitted" });
}
/// A delta commit that was rolled back: its block is followed, in some log file, by a rollback block.
#[no_mangle]
pub extern "C" fn hv_mor_rollback() {
    let d1 = sym_ts(1, "d1");
    let d2 = sym_ts(1, "d2");
    let rb = sym_ts(1, "rb");
    s::assume(d1.as_str() > C0 && d2.as_str() > C0 && d1 < rb && d2 != d1 && d2 != rb);
    let r1 = vec![rec(&d1, 0, "a", 10, 9), rec(&d1, 1, "c", 11, 9)];
    let r2 = vec![rec(&d2, 0, "b", 20, 6), rec(&d2, 1, "a", 21, 6)];
    let layout = s::choose(3, "layout");
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    st.put(&base_name(0, C0), parquet(&batch(&base0(), &[])));
    put_commit(&mut st, C0, 3, base_metadata(0, C0));
    let (b1, b2, br) = (data_block(&d1, &r1), data_block(&d2, &r2), rollback_block(&rb, &d1));
    match layout {
        0 => st.put(&log_name(0, C0, 1), [b1, b2, br].concat()),
        1 => {
            st.put(&log_name(0, C0, 1), [b1, b2].concat());
            st.put(&log_name(0, C0, 2), br);
        }
        _ => {
            st.put(&log_name(0, C0, 3), br);
            st.put(&log_name(0, C0, 2), b2);
            st.put(&log_name(0, C0, 1), b1);
        }
    }
    // the rolled back commit is still inflight, or already removed from the timeline
    if s::choose(2, "cleaned") == 0 {
        put_delta(&mut st, &d1, 2, String::new());
        put_action(&mut st, &rb, "rollback", "rollback.inflight", "rollback", 2, String::new());
    } else {
        put_action(&mut st, &rb, "rollback", "rollback.inflight", "rollback", 3, "{}".into());
    }
    put_delta(&mut st, &d2, 3, delta_metadata(0, C0, &[if layout == 2 { 2 } else { 1 }]));
    st.install();
    let t = open();
    let at = sym_ts(1, "at");
    let srcs = vec![(C0.to_string(), base0()), (d2.clone(), r2)];
    let got = rows(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap());
    s::check(got == merge(&live(&srcs, |x| x <= at.as_str())), "as-of rows");
    s::check(rows(&block_on(t.read_snapshot(&[])).unwrap()) == merge(&live(&srcs, |_| true)), "snapshot rows");
    let inc = rows(&block_on(t.read_incremental_records(C0, Some(&at))).unwrap());
    // the log file with the rollback block is named by no commit in the window
    let outside = layout == 1 && d1 <= at && d2 <= at;
    s::check(
        inc == merge(&live(&srcs, |x| x > C0 && x <= at.as_str())),
        if outside { "incremental rows, rollback block in a log file that no commit of the window names" } else { "incremental rows" },
    );
    s::observe(format!("{got:?}{inc:?}").as_bytes(), "rows");
    s::cover(if at < rb { "before the rollback" } else { "after the rollback" });
}
/// Compaction: base, delta, compacted base, delta; the compaction may be pending, with the last delta on top of it.
#[no_mangle]
pub extern "C" fn hv_mor_compact() {
    let d1 = sym_ts(1, "d1");
    let c1 = sym_ts(1, "c1");
    let d2 = sym_ts(1, "d2");
    s::assume(d1.as_str() > C0 && d1 < c1 && c1 < d2);
    let r1 = vec![rec(&d1, 0, "a", 10, small("p1")), rec(&d1, 1, "c", 11, 6)];
    let r2 = vec![rec(&d2, 0, "a", 20, small("p2"))];
    let step = s::choose(4, "compaction"); // requested, inflight, base file, completed
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    st.put(&base_name(0, C0), parquet(&batch(&base0(), &[])));
    put_commit(&mut st, C0, 3, base_metadata(0, C0));
    st.put(&log_name(0, C0, 1), data_block(&d1, &r1));
    put_delta(&mut st, &d1, 3, delta_metadata(0, C0, &[1]));
    // the compacted base file: the merged records
    let all = [base0(), r1.clone()].concat();
    let m = merge(&all.iter().collect::<Vec<_>>());
    let compacted: Vec<Rec> = m.iter().map(|(k, v)| all.iter().find(|r| r.key == *k && r.val == *v).unwrap().clone()).collect();
    put_action(&mut st, &c1, "compaction", "compaction.inflight", "commit", if step == 3 { 3 } else { (step + 1).min(2) }, base_metadata(0, &c1));
    if step >= 2 {
        st.put(&base_name(0, &c1), parquet(&batch(&compacted, &[])));
    }
    st.put(&log_name(0, &c1, 1), data_block(&d2, &r2));
    let md = if step == 3 { delta_metadata(0, &c1, &[1]) } else { delta_metadata(0, &c1, &[1]).replace(&base_name(0, &c1), &base_name(0, C0)) };
    put_delta(&mut st, &d2, 3, md);
    if s::choose(2, "order") == 1 {
        st.files.reverse();
    }
    st.install();
    let t = open();
    let at = sym_ts(1, "at");
    let srcs = vec![(C0.to_string(), base0()), (d1.clone(), r1), (d2.clone(), r2)];
    let got = rows(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap());
    s::check(got == merge(&live(&srcs, |x| x <= at.as_str())), "as-of rows");
    s::check(rows(&block_on(t.read_snapshot(&[])).unwrap()) == merge(&live(&srcs, |_| true)), "snapshot rows");
    s::observe(format!("{got:?}").as_bytes(), "rows");
    s::cover(if step == 3 { "compacted" } else { "compaction pending" });
}
/// Incremental windows over base, delta, compaction, delta.
#[no_mangle]
pub extern "C" fn hv_mor_inc() {
    let d1 = sym_ts(1, "d1");
    let d2 = sym_ts(1, "d2");
    let compaction = s::choose(2, "compaction") == 1;
    let c1 = if compaction { sym_ts(1, "c1") } else { String::new() };
    s::assume(d1.as_str() > C0 && d1 < d2);
    if compaction {
        s::assume(d1 < c1 && c1 < d2);
    }
    let r1 = vec![rec(&d1, 0, "a", 10, 6), rec(&d1, 1, "c", 11, 6)];
    let r2 = vec![rec(&d2, 0, ["a", "b", "d"][s::choose(3, "k2")], 20, 7)];
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    st.put(&base_name(0, C0), parquet(&batch(&base0(), &[])));
    put_commit(&mut st, C0, 3, base_metadata(0, C0));
    st.put(&log_name(0, C0, 1), data_block(&d1, &r1));
    put_delta(&mut st, &d1, 3, delta_metadata(0, C0, &[1]));
    if compaction {
        let all = [vec![base0()[1].clone()], r1.clone()].concat();
        put_action(&mut st, &c1, "compaction", "compaction.inflight", "commit", 3, base_metadata(0, &c1));
        st.put(&base_name(0, &c1), parquet(&batch(&all, &[])));
        st.put(&log_name(0, &c1, 1), data_block(&d2, &r2));
        put_delta(&mut st, &d2, 3, delta_metadata(0, &c1, &[1]));
    } else {
        st.put(&log_name(0, C0, 2), data_block(&d2, &r2));
        put_delta(&mut st, &d2, 3, delta_metadata(0, C0, &[2]));
    }
    st.install();
    let t = open();
    let (b, e) = (sym_ts(1, "start"), sym_ts(1, "end"));
    let srcs = vec![(C0.to_string(), base0()), (d1.clone(), r1), (d2.clone(), r2)];
    let got = rows(&block_on(t.read_incremental_records(&b, Some(&e))).unwrap());
    s::check(got == merge(&live(&srcs, |x| x > b.as_str() && x <= e.as_str())), "incremental rows");
    s::observe(format!("{got:?}").as_bytes(), "rows");
    s::cover(if got.is_empty() { "none" } else { "some" });
}
/// A block this reader cannot decode, written after the as-of instant, does not matter.
#[no_mangle]
pub extern "C" fn hv_mor_later_block() {
    let d1 = sym_ts(1, "d1");
    let d2 = sym_ts(1, "d2");
    s::assume(d1.as_str() > C0 && d1 < d2);
    let r1 = upsert(&d1, 10, "u1");
    let ty = [1, 2, 4, 6, 5, 3][s::choose(6, "type")];
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    st.put(&base_name(0, C0), parquet(&batch(&base0(), &[])));
    put_commit(&mut st, C0, 3, base_metadata(0, C0));
    let b1 = data_block(&d1, &r1);
    let b2 = block([1, 2, 3][s::choose(3, "version")], ty, &[(INSTANT, &d2), (SCHEMA, "\"?")], b"not decodable");
    if s::choose(2, "layout") == 0 {
        st.put(&log_name(0, C0, 1), [b2, b1].concat());
    } else {
        st.put(&log_name(0, C0, 1), b1);
        st.put(&log_name(0, C0, 2), b2);
    }
    put_delta(&mut st, &d1, 3, delta_metadata(0, C0, &[1]));
    put_delta(&mut st, &d2, 3, delta_metadata(0, C0, &[2]));
    st.install();
    let t = open();
    let at = sym_ts(1, "at");
    let srcs = vec![(C0.to_string(), base0()), (d1.clone(), r1)];
    match block_on(t.read_snapshot_as_of(&at, &[])) {
        Ok(b) => {
            s::check(at < d2, "an undecodable block within the read is an error");
            s::check(rows(&b) == merge(&live(&srcs, |x| x <= at.as_str())), "as-of rows");
            s::cover("before");
        }
        Err(_) => {
            s::check(at >= d2, "a later block does not fail the read");
            s::cover("after");
        }
    }
}

// ---- the record merger itself ----
use arrow_array::*;
use arrow_schema::*;
use hudi_core::config::HudiConfigs;
use hudi_core::merge::record_merger::RecordMerger;
use std::sync::Arc;

fn mschema(ts: DataType) -> Arc<Schema> {
    Arc::new(Schema::new(vec![
        Field::new("_hoodie_commit_seqno", DataType::Utf8, true),
        Field::new("_hoodie_record_key", DataType::Utf8, true),
        Field::new("ts", ts, true),
        Field::new("val", DataType::Int32, true),
    ]))
}
pub fn mconf(strategy: &str) -> Arc<HudiConfigs> {
    Arc::new(HudiConfigs::new([
        ("hoodie.table.record.merge.strategy", strategy),
        ("hoodie.table.precombine.field", "ts"),
        ("hoodie.populate.meta.fields", "true"),
    ]))
}
/// (key, seqno, precombine or null) per row; the value is the row number.
pub struct Row {
    key: String,
    seq: String,
    p: Option<i64>,
}
fn mbatch(rows: &[Row], first: usize, ts: ArrayRef, sc: &Arc<Schema>) -> RecordBatch {
    RecordBatch::try_new(
        sc.clone(),
        vec![
            Arc::new(StringArray::from(rows.iter().map(|r| r.seq.clone()).collect::<Vec<_>>())),
            Arc::new(StringArray::from(rows.iter().map(|r| r.key.clone()).collect::<Vec<_>>())),
            ts,
            Arc::new(Int32Array::from((0..rows.len()).map(|i| (first + i) as i32).collect::<Vec<_>>())),
        ],
    )
    .unwrap()
}
fn check_merge(rows: &[Row], cuts: &[usize], wide: bool) {
    check_merge_type(rows, cuts, if wide { DataType::Int64 } else { DataType::Int32 })
}
/// Precombine values of a type, in the order of the numbers they are made from.
fn mvalues(part: &[Row], t: &DataType) -> ArrayRef {
    let p = || part.iter().map(|r| r.p);
    match t {
        DataType::Int64 => Arc::new(p().collect::<Int64Array>()),
        DataType::Int32 => Arc::new(p().map(|x| x.map(|y| y as i32)).collect::<Int32Array>()),
        DataType::Int16 => Arc::new(p().map(|x| x.map(|y| y as i16)).collect::<Int16Array>()),
        DataType::UInt8 => Arc::new(p().map(|x| x.map(|y| y as u8)).collect::<UInt8Array>()),
        DataType::Date32 => Arc::new(p().map(|x| x.map(|y| y as i32)).collect::<Date32Array>()),
        DataType::Timestamp(..) => Arc::new(p().collect::<TimestampMicrosecondArray>()),
        DataType::Decimal128(..) => Arc::new(p().map(|x| x.map(|y| y as i128)).collect::<Decimal128Array>().with_precision_and_scale(20, 2).unwrap()),
        // one byte, or the byte 'm' and the value
        DataType::Utf8 => Arc::new(p().map(|x| x.map(|y| if y < 0 { String::from("m") } else { format!("m{}", y as u8 as char) })).collect::<StringArray>()),
        _ => Arc::new(p().map(|x| x.map(|y| y as f64 / 4.0)).collect::<Float64Array>()),
    }
}
fn check_merge_type(rows: &[Row], cuts: &[usize], t: DataType) {
    let sc = mschema(t.clone());
    let mut bs = vec![];
    let mut a = 0;
    for b in cuts.iter().copied().chain([rows.len()]) {
        let part = &rows[a..b];
        let ts = mvalues(part, &t);
        bs.push(mbatch(part, a, ts, &sc));
        a = b;
    }
    let out = RecordMerger::new(mconf("overwrite_with_latest")).merge_record_batches(&sc, &bs).unwrap();
    let k = out.column(1).as_any().downcast_ref::<StringArray>().unwrap();
    let v = out.column(3).as_any().downcast_ref::<Int32Array>().unwrap();
    let mut keys: Vec<&str> = vec![];
    for r in rows {
        if !keys.contains(&r.key.as_str()) {
            keys.push(&r.key);
        }
    }
    s::check(out.num_rows() == keys.len(), "one row per key");
    let mut picked: Vec<i32> = vec![];
    for i in 0..out.num_rows() {
        let w = &rows[v.value(i) as usize];
        s::check(w.key == k.value(i), "rows are kept whole");
        for r in rows {
            if r.key == w.key {
                s::check((r.p, &r.seq) <= (w.p, &w.seq), "the latest record of the key");
            }
        }
        picked.push(v.value(i));
    }
    picked.sort_unstable();
    s::observe(format!("{picked:?}").as_bytes(), "rows");
    let out = RecordMerger::new(mconf("append_only")).merge_record_batches(&sc, &bs).unwrap();
    let v = out.column(3).as_any().downcast_ref::<Int32Array>().unwrap();
    s::check(v.len() == rows.len() && (0..v.len()).all(|i| v.value(i) == i as i32), "append-only keeps every row in order");
    s::cover(if keys.len() == rows.len() { "distinct" } else { "duplicates" });
}
fn mrows(n: usize, seqs: bool, nulls: bool, wide: bool) -> Vec<Row> {
    (0..n)
        .map(|i| {
            let key = (b'a' + s::choose((i as u8 + 1).min(3), "key") as u8) as char;
            let p = if nulls && s::choose(3, "null") == 0 { None } else if wide { Some(s::any_i64("p")) } else { Some(s::any_i32("p") as i64) };
            let seq = if seqs { format!("2024_{}", s::u8_in(b'0', b'9', "seq") as char) } else { format!("2024_{i}") };
            Row { key: key.to_string(), seq, p }
        })
        .collect()
}
/// 3 rows in two batches, any 64-bit precombine values and nulls.
#[no_mangle]
pub extern "C" fn hv_merge() {
    let r = mrows(3, true, true, true);
    let cut = s::choose(3, "cut");
    check_merge(&r, if cut < 2 { &[1, 2][cut..cut + 1] } else { &[] }, true)
}
/// 4 rows, any 32-bit precombine values.
#[no_mangle]
pub extern "C" fn hv_merge4() {
    let r = mrows(4, false, false, false);
    check_merge(&r, &[1, 3], false)
}
/// Precombine columns of other types, in one to three batches, some of them empty.
#[no_mangle]
pub extern "C" fn hv_merge_types() {
    let k = s::choose(7, "type");
    let t = [
        DataType::Int16,
        DataType::UInt8,
        DataType::Date32,
        DataType::Timestamp(TimeUnit::Microsecond, None),
        DataType::Decimal128(20, 2),
        DataType::Utf8,
        DataType::Float64,
    ][k]
        .clone();
    let r: Vec<Row> = (0..3)
        .map(|i| {
            let key = (b'a' + s::choose((i as u8 + 1).min(2), "key") as u8) as char;
            let p = match k {
                _ if i == 1 && s::choose(2, "null") == 0 => None,
                0 => Some(i16::from_le_bytes(s::bytes_in(0, 255, "p")) as i64),
                1 => Some(s::u8_in(0, 255, "p") as i64),
                2 => Some(s::any_i32("p") as i64),
                3 | 4 => Some(s::any_i64("p")),
                5 => Some(s::u8_in(b'!', b'~', "p") as i64),
                _ => Some([-9, 0, 3, 1 << 40][s::choose(4, "p")]),
            };
            Row { key: key.to_string(), seq: format!("2024_{}", [0, 2, 1][i]), p }
        })
        .collect();
    let cuts: &[usize] = [&[][..], &[0, 1], &[2, 2], &[1, 2]][s::choose(4, "cuts")];
    check_merge_type(&r, cuts, t)
}
