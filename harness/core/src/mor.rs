//! Merge-on-read fixtures: log blocks, delta commits, and the reference merge.
use crate::fix::*;
use crate::hist::*;
use crate::store::*;
use arrow_array::*;

pub const MOR: &[(&str, &str)] = &[
    ("hoodie.table.type", "MERGE_ON_READ"),
    ("hoodie.table.precombine.field", "ts"),
    ("hoodie.datasource.write.hive_style_partitioning", "false"),
    ("hoodie.datasource.write.partitionpath.urlencode", "false"),
];
pub const INSTANT: u32 = 0;
pub const TARGET: u32 = 1;
pub const SCHEMA: u32 = 2;
pub const COMMAND: u32 = 3;
/// One log block as written by Hudi (the format versions differ in the trailing parts).
pub fn block(version: u32, ty: u32, header: &[(u32, &str)], content: &[u8]) -> Vec<u8> {
    block_f(version, ty, header, content, &[])
}
pub fn block_f(version: u32, ty: u32, header: &[(u32, &str)], content: &[u8], footer: &[(u32, &str)]) -> Vec<u8> {
    let kvs = |h: &[(u32, &str)]| {
        let mut b = (h.len() as u32).to_be_bytes().to_vec();
        for (k, v) in h {
            b.extend(k.to_be_bytes());
            b.extend((v.len() as u32).to_be_bytes());
            b.extend(v.as_bytes());
        }
        b
    };
    let mut b = version.to_be_bytes().to_vec();
    if version != 0 {
        b.extend(ty.to_be_bytes());
        b.extend(kvs(header));
        b.extend((content.len() as u64).to_be_bytes());
    }
    b.extend(content);
    if version == 1 {
        b.extend(kvs(footer));
        let total = b.len() as u64 + 8 + 8 + 6;
        b.extend(total.to_be_bytes());
    }
    let mut out = b"#HUDI#".to_vec();
    out.extend((b.len() as u64).to_be_bytes());
    out.extend(b);
    out
}
pub fn data_block(ts: &str, recs: &[Rec]) -> Vec<u8> {
    block(1, 5, &[(INSTANT, ts), (SCHEMA, "{}")], &parquet(&batch(recs, &[])))
}
pub fn rollback_block(ts: &str, target: &str) -> Vec<u8> {
    block(1, 0, &[(INSTANT, ts), (TARGET, target), (COMMAND, "0")], &[])
}
pub fn log_name(fg: usize, base: &str, version: u32) -> String {
    format!(".{}_{}.log.{}_0-1-1", fid(fg), base, version)
}
pub fn rec(ct: &str, n: usize, key: &str, val: i32, ts: i64) -> Rec {
    Rec { ct: ct.into(), seq: format!("{ct}_0_{n}"), key: key.into(), part: String::new(), val, ts }
}
/// Metadata of a deltacommit that appended to `logs` of one file slice.
pub fn delta_metadata(fg: usize, base: &str, logs: &[u32]) -> String {
    let names: Vec<String> = logs.iter().map(|v| format!("\"{}\"", log_name(fg, base, *v))).collect();
    format!(
        r#"{{"partitionToWriteStats":{{"":[{{"fileId":"{}","path":"{}","baseFile":"{}","logFiles":[{}]}}]}},"operationType":"UPSERT"}}"#,
        fid(fg),
        log_name(fg, base, logs[0]),
        base_name(fg, base),
        names.join(",")
    )
}
pub fn base_metadata(fg: usize, base: &str) -> String {
    format!(r#"{{"partitionToWriteStats":{{"":[{{"fileId":"{}","path":"{}"}}]}},"operationType":"UPSERT"}}"#, fid(fg), base_name(fg, base))
}
/// Timeline files of an action; `steps` of (requested, inflight, completed) exist.
pub fn put_action(st: &mut MemStore, ts: &str, action: &str, inflight: &str, done: &str, steps: usize, meta: String) {
    let n = |s: &str| format!(".hoodie/{ts}.{s}");
    if steps > 0 {
        st.put(&n(&format!("{action}.requested")), "");
    }
    if steps > 1 {
        st.put(&n(inflight), "");
    }
    if steps > 2 {
        st.put(&n(done), meta);
    }
}
pub fn put_commit(st: &mut MemStore, ts: &str, steps: usize, meta: String) {
    put_action(st, ts, "commit", "inflight", "commit", steps, meta)
}
pub fn put_delta(st: &mut MemStore, ts: &str, steps: usize, meta: String) {
    put_action(st, ts, "deltacommit", "deltacommit.inflight", "deltacommit", steps, meta)
}
/// Latest record per key: the greatest precombine value, ties by commit sequence number.
pub fn merge(recs: &[&Rec]) -> Vec<(String, i32)> {
    let mut out: Vec<&Rec> = vec![];
    for r in recs {
        match out.iter().position(|x| x.key == r.key) {
            None => out.push(r),
            Some(i) => {
                if r.ts > out[i].ts || (r.ts == out[i].ts && r.seq > out[i].seq) {
                    out[i] = r;
                }
            }
        }
    }
    let mut v: Vec<(String, i32)> = out.iter().map(|r| (r.key.clone(), r.val)).collect();
    v.sort();
    v
}
pub fn rows(bs: &[RecordBatch]) -> Vec<(String, i32)> {
    let mut v = vec![];
    for b in bs {
        let k = b.column_by_name("_hoodie_record_key").unwrap().as_any().downcast_ref::<StringArray>().unwrap();
        let c = b.column_by_name("val").unwrap().as_any().downcast_ref::<Int32Array>().unwrap();
        v.extend((0..b.num_rows()).map(|i| (k.value(i).to_string(), c.value(i))));
    }
    v.sort();
    v
}
// ---- avro content ----
pub fn av_long(n: i64) -> Vec<u8> {
    let mut z = ((n << 1) ^ (n >> 63)) as u64;
    let mut b = vec![];
    while z >= 0x80 {
        b.push((z as u8 & 0x7f) | 0x80);
        z >>= 7;
    }
    b.push(z as u8);
    b
}
pub fn av_str(s: &[u8]) -> Vec<u8> {
    let mut b = av_long(s.len() as i64);
    b.extend(s);
    b
}
/// Content of an avro data block.
pub fn avro_content(recs: &[Vec<u8>]) -> Vec<u8> {
    let mut b = 3u32.to_be_bytes().to_vec();
    b.extend((recs.len() as u32).to_be_bytes());
    for r in recs {
        b.extend((r.len() as u32).to_be_bytes());
        b.extend(r);
    }
    b
}
pub const AVRO_REC: &str = r#"{"type":"record","name":"r","fields":[{"name":"_hoodie_commit_time","type":["null","string"]},{"name":"_hoodie_commit_seqno","type":["null","string"]},{"name":"_hoodie_record_key","type":["null","string"]},{"name":"_hoodie_partition_path","type":["null","string"]},{"name":"_hoodie_file_name","type":["null","string"]},{"name":"val","type":["null","int"]},{"name":"ts","type":["null","long"]}]}"#;
pub fn avro_rec(r: &Rec) -> Vec<u8> {
    let mut b = vec![];
    for x in [&r.ct, &r.seq, &r.key, &r.part, &"f".to_string()] {
        b.push(2);
        b.extend(av_str(x.as_bytes()));
    }
    b.push(2);
    b.extend(av_long(r.val as i64));
    b.push(2);
    b.extend(av_long(r.ts));
    b
}
pub fn avro_block(version: u32, ts: &str, recs: &[Rec]) -> Vec<u8> {
    block(version, 3, &[(INSTANT, ts), (SCHEMA, AVRO_REC)], &avro_content(&recs.iter().map(avro_rec).collect::<Vec<_>>()))
}
