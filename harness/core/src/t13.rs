//! Several pending writers, clustering instants, other files in partition directories, many log records.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use crate::t3::*;
use crate::t4::*;
use symrt as s;

/// Two writers crash (or complete) after any of some of their steps, over two partitions; a third completes.
#[no_mangle]
pub extern "C" fn hv_crash_two() {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(PART));
    let k1 = [1, 2, 3, 5][s::choose(4, "steps of the first")];
    let k2 = [1, 3, 4][s::choose(3, "steps of the second")];
    let kind = [Kind::Commit, Kind::Replace][s::choose(2, "kind")];
    let rep = if kind == Kind::Replace { vec![pw("a", 0)] } else { vec![] };
    let mut h = vec![
        cm("20240101000000100".into(), Kind::Commit, vec![pw("a", 0), pw("b", 1)], vec![]),
        cm(sym_ts(1, "u"), kind, vec![pw("a", 2), pw("b", 1)], rep),
        cm(sym_ts(1, "v"), Kind::Commit, vec![pw("b", 1)], vec![]),
        cm(sym_ts(1, "c"), Kind::Commit, vec![pw("a", 3)], vec![]),
    ];
    s::assume(h[1].ts != h[2].ts && h[1].ts != h[3].ts && h[2].ts != h[3].ts);
    for (i, k, n) in [(1, k1, 5), (2, k2, 4)] {
        h[i].st = if k == n { St::Completed } else if k == 1 { St::Requested } else { St::Inflight };
    }
    for (i, c) in h.iter().enumerate() {
        let n = [9, k1, k2, 9][i];
        let a = action(c.kind);
        let inflight = if c.kind == Kind::Commit { "inflight".to_string() } else { format!("{a}.inflight") };
        st.put(&format!(".hoodie/{}.{a}.requested", c.ts), "");
        if n > 1 {
            st.put(&format!(".hoodie/{}.{inflight}", c.ts), "");
        }
        for (j, w) in c.writes.iter().enumerate() {
            if n > 2 + j {
                st.put(&join(&w.part, &base_name(w.fg, &c.ts)), base_file(c, i, w, &[]));
            }
        }
        if n > 2 + c.writes.len() {
            st.put(&format!(".hoodie/{}.{a}", c.ts), metadata(c));
        }
    }
    if s::choose(2, "order") == 1 {
        st.files.reverse();
    }
    st.install();
    let t = open();
    let at = sym_ts(1, "at");
    let vis = |t: &str| {
        let mut e: Vec<i32> = visible(&h, t).iter().map(|(_, f, c)| (10 * c + f) as i32).collect();
        e.sort_unstable();
        e
    };
    let last = h.iter().filter(|c| c.st == St::Completed).map(|c| c.ts.clone()).max().unwrap();
    let v = values(&block_on(t.read_snapshot(&[])).unwrap());
    s::check(v == vis(&last), "rows of committed writes, no others");
    let got = block_on(t.get_file_slices_as_of(&at, &[])).unwrap();
    check_slices(&got, &visible(&h, &at), &h, "as-of");
    s::check(values(&block_on(t.read_snapshot_as_of(&at, &[])).unwrap()) == vis(&at), "rows as of a time");
    s::observe(format!("{v:?}").as_bytes(), "rows");
    s::cover(match (h[1].st == St::Completed) as u8 + (h[2].st == St::Completed) as u8 {
        0 => "two pending",
        1 => "one pending",
        _ => "none pending",
    });
}
/// The clustering listing is the replacecommits whose operation is clustering.
#[no_mangle]
pub extern "C" fn hv_tl_cluster() {
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(COW));
    let mut e: Vec<String> = vec![];
    let mut all: Vec<String> = vec![];
    for i in 0..3 {
        let ts = sym_ts(1, "ts");
        s::assume(!all.contains(&ts));
        let op = ["cluster", "insert_overwrite", "clustering", "", "compact", "delete_partition"][s::choose([6, 3, 2][i], "operation")];
        let a = if i == 0 { ["replacecommit", "commit", "deltacommit"][s::choose(3, "action")] } else { "replacecommit" };
        let inf = if a == "commit" { "inflight".to_string() } else { format!("{a}.inflight") };
        let steps = if i == 1 { 2 + s::choose(2, "steps") } else { 3 };
        put_action(&mut st, &ts, a, &inf, a, steps, format!(r#"{{"partitionToWriteStats":{{}},"partitionToReplaceFileIds":{{}},"extraMetadata":{{"operationType":"cluster"}},"operationType":"{op}"}}"#));
        if a == "replacecommit" && op == "cluster" && steps == 3 {
            e.push(ts.clone());
        }
        all.push(ts);
    }
    e.sort();
    if s::choose(2, "order") == 1 {
        st.files.reverse();
    }
    st.install();
    let t = open();
    let got = |desc: bool| {
        let v = block_on(t.get_timeline().get_completed_clustering_commits(desc));
        s::check(v.is_ok(), "the listing succeeds");
        v.unwrap().iter().map(|i| i.timestamp.clone()).collect::<Vec<String>>()
    };
    let asc = got(false);
    s::check(asc == e, "exactly the clustering instants in time order");
    let mut d = got(true);
    d.reverse();
    s::check(d == e, "descending listing is the reverse");
    s::observe(asc.join(",").as_bytes(), "clustering");
    s::cover(if e.is_empty() { "none" } else { "some" });
}
/// Files that are no data files lie next to them in the partition: markers, checksums, partition metadata, change logs.
#[no_mangle]
pub extern "C" fn hv_ls_stray() {
    const A: &str = "20240101000000100";
    const B: &str = "20240101000000200";
    let mut st = MemStore::new();
    let part = s::choose(2, "partitioned") == 1;
    st.put(".hoodie/hoodie.properties", props(if part { PART } else { COW }));
    let p = if part { "a" } else { "" };
    let h = [cm(A.into(), Kind::Commit, vec![pw(p, 0), pw(p, 1)], vec![]), cm(B.into(), Kind::Commit, vec![pw(p, 0)], vec![])];
    let n = [
        "_SUCCESS".to_string(),
        ".hoodie_partition_metadata".into(),
        ".hoodie_partition_metadata.parquet".into(),
        "..hoodie_partition_metadata.crc".into(),
        format!(".{}.crc", base_name(0, B)),
        format!("{}.crc", base_name(1, B)),
        format!(".{}_{B}.log.1_0-1-1.cdc", fid(0)),
        format!(".{}_{B}.log.1_0-1-1-cdc", fid(9)),
        "x.orc".into(),
        format!("{}.marker.CREATE", base_name(1, B)),
        "notes.txt".into(),
        ".DS_Store".into(),
        format!(".{}.tmp", base_name(1, B)),
        format!("{}_0-1-1_{B}", fid(1)),
    ];
    let mut names = vec![n[s::choose(n.len() as u8, "first")].clone()];
    let two = n[s::choose(3, "second")].clone();
    if two != names[0] {
        names.push(two);
    }
    for x in &names {
        st.put(&join(p, x), "");
    }
    for (i, c) in h.iter().enumerate() {
        for w in &c.writes {
            st.put(&join(p, &base_name(w.fg, &c.ts)), base_file(c, i, w, &[]));
        }
        put_timeline(&mut st, c, metadata(c));
    }
    if s::choose(2, "order") == 1 {
        st.files.reverse();
    }
    st.install();
    let t = open();
    for at in [A, B] {
        let v = visible(&h, at);
        let sl = block_on(t.get_file_slices_as_of(at, &[]));
        s::check(sl.is_ok(), "listing succeeds");
        let sl = sl.unwrap();
        check_slices(&sl, &v, &h, "the data files and no others");
        s::check(sl.iter().all(|f| f.log_files.is_empty()), "no log files");
        let mut e: Vec<i32> = v.iter().map(|(_, f, c)| (10 * c + f) as i32).collect();
        e.sort_unstable();
        s::check(values(&block_on(t.read_snapshot_as_of(at, &[])).unwrap()) == e, "rows");
    }
    s::cover("end");
}
/// Blocks and base files with more records than a batch holds.
#[no_mangle]
pub extern "C" fn hv_log_many() {
    const A: &str = "20240101000000100";
    const B: &str = "20240101000000200";
    let n = [1usize, 1023, 1024, 1025, 2049][s::choose(5, "records")];
    let at = n - 1 - [0, 1, 1023, 1024][s::choose(4, "changed")].min(n - 1);
    let ts = s::u8_in(4, 6, "precombine") as i64;
    let log = s::choose(3, "in"); // base file, parquet block, avro block
    let key = |i: usize| format!("k{i}");
    let recs = |ct: &str| -> Vec<Rec> { (0..n).map(|i| rec(ct, i, &key(i), i as i32, 5)).collect() };
    let mut changed = recs(B);
    changed[at].ts = ts;
    changed[at].val = -1;
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    st.put(&base_name(0, A), parquet(&batch(&if log == 0 { changed.clone() } else { vec![rec(A, 0, &key(at), -2, 5)] }, &[])));
    put_commit(&mut st, A, 3, base_metadata(0, A));
    if log > 0 {
        st.put(&log_name(0, A, 1), if log == 1 { data_block(B, &changed) } else { avro_block(2, B, &changed) });
        put_delta(&mut st, B, 3, delta_metadata(0, A, &[1]));
    }
    st.install();
    let t = open();
    let got = block_on(t.read_snapshot(&[]));
    s::check(got.is_ok(), "the snapshot reads");
    let mut v: Vec<i32> = rows(&got.unwrap()).iter().map(|x| x.1).collect();
    v.sort_unstable();
    // the key's value in the base file wins a tie only against an older record
    let mut e: Vec<i32> = (0..n).filter(|i| *i != at).map(|i| i as i32).collect();
    e.push(if log == 0 || ts >= 5 { -1 } else { -2 });
    e.sort_unstable();
    s::check(v.len() == e.len(), "number of rows");
    s::check(v == e, "every record once");
    let sl = block_on(t.get_file_slices(&[])).unwrap();
    s::check(sl.len() == 1 && sl[0].base_file.file_metadata.as_ref().map_or(false, |m| m.num_records == if log == 0 { n as i64 } else { 1 }), "number of records of the base file");
    s::observe_u64(v.len() as u64, "rows");
    s::cover(if n > 1024 { "several batches" } else { "one batch" });
}
/// Base files of several row groups.
#[no_mangle]
pub extern "C" fn hv_row_groups() {
    const A: &str = "20240101000000100";
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(COW));
    let n = s::choose(6, "rows");
    let size = 1 + s::choose(3, "row group size");
    let recs: Vec<Rec> = (0..n).map(|i| rec(A, i, ["a", "bb", "ccc", "dddd", "eeeee"][i], i as i32, 5)).collect();
    use parquet::basic::{Compression, GzipLevel};
    let (c, rich) = [(Compression::UNCOMPRESSED, false), (Compression::SNAPPY, true), (Compression::GZIP(GzipLevel::default()), false)][s::choose(3, "encoding")];
    let data = parquet_as(&batch(&recs, &[]), size, c, rich);
    let len = data.len();
    use parquet::file::reader::FileReader;
    let r = parquet::file::reader::SerializedFileReader::new(bytes::Bytes::from(data.clone())).unwrap();
    s::check(r.num_row_groups() == n.div_ceil(size), "as many row groups");
    let bytes: i64 = (0..r.num_row_groups()).map(|i| r.metadata().row_group(i).columns().iter().map(|c| c.uncompressed_size()).sum::<i64>()).sum();
    st.put(&base_name(0, A), data);
    put_commit(&mut st, A, 3, base_metadata(0, A));
    st.install();
    let t = open();
    let got = rows(&block_on(t.read_snapshot(&[])).unwrap());
    s::check(got.len() == n && got.iter().enumerate().all(|(i, x)| x.1 == i as i32), "all rows in all row groups");
    let inc = rows(&block_on(t.read_incremental_records("20240101000000000", None)).unwrap());
    s::check(inc == got, "all rows of the increment");
    let sl = block_on(t.get_file_slices(&[])).unwrap();
    s::check(sl.len() == 1, "one file slice");
    let m = sl[0].base_file.file_metadata.clone().unwrap();
    s::check(m.size == len && m.num_records == n as i64 && m.byte_size == bytes && m.fully_populated, "size, rows and byte size of the file");
    s::observe_u64(n as u64, "rows");
    s::cover(if n > size { "several" } else { "one" });
}
/// Two rollbacks over three deltacommits, each rolling back one of them (or one that wrote nothing here).
#[no_mangle]
pub extern "C" fn hv_mor_rollback2() {
    const C0: &str = "20240101000000500";
    let d = ["20240101000000600".to_string(), sym_ts(1, "d"), "20240101000001000".to_string()];
    s::assume(d[1].as_str() > C0);
    let rb = ["20240101000001100", "20240101000001200"];
    let t0 = s::choose(3, "first target");
    let t1 = s::choose(4, "second target");
    s::assume(t0 != t1);
    let target = |k: usize| if k < 3 { d[k].clone() } else { "20240101000000999".to_string() };
    let recs: Vec<Vec<Rec>> = (0..3).map(|i| vec![rec(&d[i], 0, "a", 10 * i as i32 + 10, 9 - i as i64), rec(&d[i], 1, ["x", "y", "z"][i], 10 * i as i32 + 11, 5)]).collect();
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    st.put(&base_name(0, C0), parquet(&batch(&crate::t7::base0(), &[])));
    put_commit(&mut st, C0, 3, base_metadata(0, C0));
    let mut b: Vec<Vec<u8>> = (0..3).map(|i| if i == 1 { avro_block(2, &d[i], &recs[i]) } else { data_block(&d[i], &recs[i]) }).collect();
    let r = [rollback_block(rb[0], &target(t0)), rollback_block(rb[1], &target(t1))];
    // the first rollback right behind the second block, or both behind the third
    let early = t0 < 2 && s::choose(2, "early") == 1;
    if early {
        b.insert(2, r[0].clone());
    } else {
        b.push(r[0].clone());
    }
    b.push(r[1].clone());
    match s::choose(3, "layout") {
        0 => st.put(&log_name(0, C0, 1), b.concat()),
        1 => {
            st.put(&log_name(0, C0, 1), b[..2].concat());
            st.put(&log_name(0, C0, 2), b[2..].concat());
        }
        _ => {
            for (i, x) in b.iter().enumerate().rev() {
                st.put(&log_name(0, C0, i as u32 + 1), x.clone());
            }
        }
    }
    for (i, x) in d.iter().enumerate() {
        if i != t0 && i != t1 {
            put_delta(&mut st, x, 3, delta_metadata(0, C0, &[1, 2, 3, 4, 5]));
        }
    }
    for x in rb {
        put_action(&mut st, x, "rollback", "rollback.inflight", "rollback", 3, "{}".into());
    }
    // a later action of the table makes the third delta's time readable even if that was rolled back
    if s::choose(2, "later") == 1 {
        put_commit(&mut st, "20240101000001300", 3, r#"{"partitionToWriteStats":{},"operationType":"UPSERT"}"#.into());
    }
    st.install();
    let t = open();
    let at = ["20240101000000550", "20240101000000700", "20240101000001000", "20240101000001150", "20240101000009000"][s::choose(5, "at")];
    let mut srcs = vec![(C0.to_string(), crate::t7::base0())];
    for i in 0..3 {
        if i != t0 && i != t1 {
            srcs.push((d[i].clone(), recs[i].clone()));
        }
    }
    let got = rows(&block_on(t.read_snapshot_as_of(at, &[])).unwrap());
    s::check(got == merge(&crate::t7::live(&srcs, |x| x <= at)), "as-of rows");
    s::check(rows(&block_on(t.read_snapshot(&[])).unwrap()) == merge(&crate::t7::live(&srcs, |_| true)), "snapshot rows");
    s::observe(format!("{got:?}").as_bytes(), "rows");
    s::cover(if t1 == 3 { "one rolled back" } else { "two rolled back" });
}
