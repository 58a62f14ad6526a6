//! Names and metadata as tables have them: any file ids, write tokens and partition names, full write statistics.
use crate::fix::*;
use crate::hist::*;
use crate::mor::*;
use crate::store::*;
use crate::t4::PART;
use symrt as s;

const C: [&str; 3] = ["20240101000000500", "20240101000000600", "20240101000000700"];

struct W {
    part: String,
    id: String,
    token: String,
}
fn file(w: &W, c: usize) -> String {
    format!("{}_{}_{}.parquet", w.id, w.token, C[c])
}
fn stat(w: &W, c: usize, n: u32, prev: &str) -> String {
    format!(
        r#"{{"fileId":"{}","path":"{}","cdcStats":null,"prevCommit":"{prev}","numWrites":{n},"numDeletes":{},"numUpdateWrites":{n},"numInserts":0,"totalWriteBytes":435331,"totalWriteErrors":{},"tempPath":null,"partitionPath":"{}","totalLogRecords":0,"totalLogFilesCompacted":0,"fileSizeInBytes":{},"minEventTime":null,"maxEventTime":null,"runtimeStats":null}}"#,
        w.id,
        join(&w.part, &file(w, c)),
        1 - n.min(1),
        1 - n.min(1),
        w.part,
        435331 * n,
    )
}
fn md(op: &str, stats: &[(&str, Vec<String>)], replaced: &[(&str, &str)]) -> String {
    let st: Vec<String> = stats.iter().map(|(p, x)| format!(r#""{p}":[{}]"#, x.join(","))).collect();
    let rp: Vec<String> = replaced.iter().map(|(p, x)| format!(r#""{p}":["{x}"]"#)).collect();
    let rp = if op == "UPSERT" { String::new() } else { format!(r#","partitionToReplaceFileIds":{{{}}}"#, rp.join(",")) };
    format!(r#"{{"partitionToWriteStats":{{{}}},"compacted":false,"extraMetadata":{{"schema":"","deltastreamer.checkpoint.key":"1"}},"operationType":"{op}"{rp}}}"#, st.join(","))
}
/// One symbolic character in the file id, the partition name or the write token; statistics with and without writes;
/// an update, then a replacement of one file group while the same id lives on in another partition.
#[no_mangle]
pub extern "C" fn hv_vary() {
    let which = s::choose(5, "symbolic");
    let hexd = || -> char {
        let c = s::u8_in(b'0', b'f', "c");
        s::assume(c <= b'9' || c >= b'a');
        c as char
    };
    let id = match which {
        0 => format!("{}2ab01-0", hexd()),
        1 => format!("b7-{}2-4c-0", hexd()),
        2 => format!("b75fd{}", hexd()),
        _ => "b75fd-2".to_string(),
    };
    let part = if which == 3 {
        let c = s::u8_in(32, 126, "p");
        s::assume(!matches!(c, b'/' | b'"' | b'\\'));
        format!("{}x", c as char)
    } else {
        ["a", "Ab", "2024/Q1"][s::choose(3, "part")].to_string()
    };
    let token = if which == 4 { format!("1{}-33-123{}", s::u8_in(b'0', b'9', "t") as char, 4) } else { "0-1-1".into() };
    let w = |p: &str, i: &str| W { part: p.to_string(), id: i.to_string(), token: token.clone() };
    let other = if part.contains('/') { "2024/z" } else { "zz" };
    let (a, b, c, d) = (w(&part, &id), w(&part, "fff-0"), w(other, &id), w(&part, "eee-0"));
    let n = s::choose(2, "writes") as u32;
    // whatever is written: (write, commit) of each base file
    let files = [(&a, 0), (&b, 0), (&c, 0), (&a, 1), (&d, 2)];
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(PART));
    for (i, (w, k)) in files.iter().enumerate() {
        let r = Rec { ct: C[*k].into(), seq: "s".into(), key: format!("k{i}"), part: w.part.clone(), val: i as i32, ts: 1 };
        st.put(&join(&w.part, &file(w, *k)), parquet(&batch(&[r], &[])));
        st.put(&join(&w.part, ".hoodie_partition_metadata"), "x");
    }
    let metas = [
        md("UPSERT", &[(&part, vec![stat(&a, 0, n, "null"), stat(&b, 0, 1, "null")]), (other, vec![stat(&c, 0, n, "null")])], &[]),
        md("UPSERT", &[(&part, vec![stat(&a, 1, n, C[0])])], &[]),
        md("INSERT_OVERWRITE", &[(&part, vec![stat(&d, 2, n, "null")])], &[(&part, &id)]),
    ];
    for (i, m) in metas.iter().enumerate() {
        let act = if i < 2 { "commit" } else { "replacecommit" };
        st.put(&format!(".hoodie/{}.{act}.requested", C[i]), "");
        st.put(&format!(".hoodie/{}{}.inflight", C[i], if i < 2 { "" } else { ".replacecommit" }), "");
        st.put(&format!(".hoodie/{}.{act}", C[i]), m.clone());
    }
    st.install();
    let t = open();
    let paths = |l: Vec<usize>| -> Vec<String> {
        let mut v: Vec<String> = l.iter().map(|i| join(&files[*i].0.part, &file(files[*i].0, files[*i].1))).collect();
        v.sort();
        v
    };
    let read = s::choose(5, "read");
    let (slices, rows, want) = match read {
        0 => (block_on(t.get_file_slices(&[])), block_on(t.read_snapshot(&[])), vec![1, 2, 4]),
        1 => (block_on(t.get_file_slices_as_of(C[1], &[])), block_on(t.read_snapshot_as_of(C[1], &[])), vec![1, 2, 3]),
        2 => (block_on(t.get_file_slices_as_of(C[0], &[])), block_on(t.read_snapshot_as_of(C[0], &[])), vec![0, 1, 2]),
        3 => (block_on(t.get_file_slices_between(Some(C[0]), Some(C[1]))), block_on(t.read_incremental_records(C[0], Some(C[1]))), vec![3]),
        _ => (block_on(t.get_file_slices_between(Some("20240101000000000"), None)), block_on(t.read_incremental_records("20240101000000000", None)), vec![1, 2, 4]),
    };
    let mut got: Vec<String> = slices.unwrap().iter().map(|f| f.base_file_relative_path().unwrap()).collect();
    got.sort();
    s::check(got == paths(want.clone()), "exactly the base files of the read, under their paths");
    s::check(values(&rows.unwrap()) == want.iter().map(|x| *x as i32).collect::<Vec<_>>(), "exactly their rows");
    s::cover(["snapshot", "as of", "as of", "incremental", "incremental"][read]);
}
/// More rows than a reader takes at once, in the base file, a parquet log block or an avro log block: all are there.
#[no_mangle]
pub extern "C" fn hv_big() {
    const D: &str = "20240101000000800";
    let n = [1, 1024, 1025, 2050][s::choose(4, "rows")];
    let recs = |ct: &str, first: usize| -> Vec<Rec> { (0..n).map(|i| Rec { ct: ct.into(), seq: format!("{i:04}"), key: format!("{:05}", first + i), part: String::new(), val: (first + i) as i32, ts: 1 }).collect() };
    let shape = s::choose(3, "where");
    let mut st = MemStore::new();
    st.put(".hoodie/hoodie.properties", props(MOR));
    let mut base = if shape == 0 { recs(C[0], 0) } else { vec![Rec { ct: C[0].into(), seq: "0".into(), key: "x".into(), part: String::new(), val: -1, ts: 1 }] };
    let v = s::any_i32("v");
    let mut want: Vec<(String, i32)> = base.iter().map(|r| (r.key.clone(), r.val)).collect();
    let mut log = if shape == 0 { vec![] } else { recs(D, 10000) };
    // the value of the last row is whatever it is
    let last = if shape == 0 { &mut base } else { &mut log };
    if shape != 2 {
        last[n - 1].val = v;
    }
    let at = n - 1;
    if shape == 0 {
        want[at].1 = v;
    }
    st.put(&base_name(0, C[0]), parquet(&batch(&base, &[])));
    put_commit(&mut st, C[0], 3, base_metadata(0, C[0]));
    if shape > 0 {
        st.put(&log_name(0, C[0], 1), if shape == 1 { data_block(D, &log) } else { avro_block(2, D, &log) });
        put_delta(&mut st, D, 3, delta_metadata(0, C[0], &[1]));
        let mut l: Vec<(String, i32)> = log.iter().map(|r| (r.key.clone(), r.val)).collect();
        l.append(&mut want);
        want = l;
    }
    st.install();
    let t = open();
    let bs = if s::choose(2, "read") == 0 { block_on(t.read_snapshot(&[])) } else { block_on(t.read_incremental_records("20240101000000000", None)) };
    let mut got: Vec<(String, i32)> = vec![];
    for b in bs.unwrap() {
        let k = b.column_by_name("_hoodie_record_key").unwrap().as_any().downcast_ref::<arrow_array::StringArray>().unwrap();
        let v = b.column_by_name("val").unwrap().as_any().downcast_ref::<arrow_array::Int32Array>().unwrap();
        got.extend((0..b.num_rows()).map(|i| (k.value(i).to_string(), v.value(i))));
    }
    got.sort_by(|a, b| a.0.cmp(&b.0));
    s::check(got.len() == want.len(), "as many rows");
    s::check(got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1), "the rows written");
    s::cover(["base", "parquet block", "avro block"][shape]);
}
/// A merge-on-read table of two partitions that share file ids, with one symbolic character in the file id, the
/// partition name or the log files' write token: each file slice merges exactly its own log files.
#[no_mangle]
pub extern "C" fn hv_mor_vary() {
    const D: [&str; 2] = ["20240101000000800", "20240101000000900"];
    let which = s::choose(5, "symbolic");
    let hexd = || -> char {
        let c = s::u8_in(b'0', b'f', "c");
        s::assume(c <= b'9' || c >= b'a');
        c as char
    };
    let id = match which {
        0 => format!("{}2ab01-0", hexd()),
        1 => format!("b7-{}2-4c-0", hexd()),
        2 => format!("b75fd{}", hexd()),
        _ => "b75fd-2".to_string(),
    };
    let part = if which == 3 {
        let c = s::u8_in(32, 126, "p");
        s::assume(!matches!(c, b'/' | b'"' | b'\\'));
        format!("{}x", c as char)
    } else {
        ["a", "Ab", "2024/Q1"][s::choose(3, "part")].to_string()
    };
    let token = if which == 4 { format!("1{}-33-123{}", s::u8_in(b'0', b'9', "t") as char, 4) } else { "0-1-1".into() };
    let other = if part.contains('/') { "2024/z" } else { "zz" };
    // (partition, id) of the file groups; the log files of each: (delta, version)
    let fgs = [(part.as_str(), id.as_str()), (part.as_str(), "fff-0"), (other, id.as_str())];
    let logs: [&[(usize, u32)]; 3] = [&[(0, 1), (1, 2)], &[(1, 1)], &[(0, 1)]];
    let n = s::choose(2, "writes");
    let r = |ct: &str, g: usize, key: &str, val: i32| Rec { ct: ct.into(), seq: format!("{ct}_{g}"), key: key.into(), part: fgs[g].0.into(), val, ts: val as i64 };
    let mut st = MemStore::new();
    let mut conf: Vec<(&str, &str)> = MOR.to_vec();
    conf.push(("hoodie.table.partition.fields", "p"));
    st.put(".hoodie/hoodie.properties", props(&conf));
    let mut stats: [Vec<(String, String)>; 3] = Default::default();
    let mut srcs: Vec<(usize, usize, Rec)> = vec![]; // (file group, action)
    for (g, (p, i)) in fgs.iter().enumerate() {
        let g0 = 100 * g as i32;
        let base = vec![r(C[0], g, &format!("u{g}"), g0), r(C[0], g, &format!("k{g}"), g0 + 1)];
        let name = format!("{i}_0-1-1_{}.parquet", C[0]);
        st.put(&join(p, &name), parquet(&batch(&base, &[])));
        st.put(&join(p, ".hoodie_partition_metadata"), "x");
        srcs.extend(base.into_iter().map(|x| (g, 0, x)));
        stats[0].push((p.to_string(), format!(r#"{{"fileId":"{i}","path":"{}","numWrites":2,"prevCommit":"null"}}"#, join(p, &name))));
        for (d, v) in logs[g] {
            let recs = vec![r(D[*d], g, &format!("u{g}"), g0 + 10 * (1 + *d as i32)), r(D[*d], g, &format!("n{g}{d}"), g0 + 10 * (1 + *d as i32) + 1)];
            let l = format!(".{i}_{}.log.{v}_{token}", C[0]);
            st.put(&join(p, &l), data_block(D[*d], &recs));
            srcs.extend(recs.into_iter().map(|x| (g, 1 + d, x)));
            stats[1 + d].push((p.to_string(), format!(r#"{{"fileId":"{i}","path":"{}","baseFile":"{name}","logFiles":["{l}"],"numWrites":{n},"numUpdateWrites":{n},"numInserts":{n},"logVersion":{v},"logOffset":0,"prevCommit":"{}"}}"#, join(p, &l), C[0])));
        }
    }
    let meta = |k: usize| {
        let mut parts: Vec<&String> = stats[k].iter().map(|x| &x.0).collect();
        parts.dedup();
        let x: Vec<String> = parts.iter().map(|p| format!(r#""{p}":[{}]"#, stats[k].iter().filter(|y| y.0 == **p).map(|y| y.1.clone()).collect::<Vec<_>>().join(","))).collect();
        format!(r#"{{"partitionToWriteStats":{{{}}},"compacted":false,"extraMetadata":{{}},"operationType":"UPSERT"}}"#, x.join(","))
    };
    put_commit(&mut st, C[0], 3, meta(0));
    for i in 0..2 {
        put_delta(&mut st, D[i], 3, meta(1 + i));
    }
    st.install();
    let t = open();
    let read = s::choose(4, "read");
    let (bs, keep): (_, fn(usize) -> bool) = match read {
        0 => (block_on(t.read_snapshot(&[])), |_| true),
        1 => (block_on(t.read_snapshot_as_of(D[0], &[])), |a| a < 2),
        2 => (block_on(t.read_incremental_records(D[0], None)), |a| a == 2),
        _ => (block_on(t.read_incremental_records(C[0], Some(D[0]))), |a| a == 1),
    };
    let live: Vec<&Rec> = srcs.iter().filter(|x| keep(x.1)).map(|x| &x.2).collect();
    s::check(rows(&bs.unwrap()) == merge(&live), "the merged records of the slices");
    if read == 0 {
        let sl = block_on(t.get_file_slices(&[])).unwrap();
        s::check(sl.len() == 3, "one slice per file group");
        for (g, (p, i)) in fgs.iter().enumerate() {
            let x = sl.iter().find(|x| x.partition_path == *p && x.file_id() == *i);
            s::check(x.map_or(false, |x| x.log_files.len() == logs[g].len()), "its log files");
        }
    }
    s::cover(["snapshot", "as of", "incremental", "incremental"][read]);
}
